//! C15: which reader a file gets.
use super::cli;
use crate::ctx::Ctx;
use crate::dwarfgen;
use crate::proc;
use crate::query;
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::Prop;
use std::ffi::{OsStr, OsString};
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::OpenOptionsExt;
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use twiggy_ir as ir;
use twiggy_traits::ParseMode;

pub const C15: Prop = Prop {
    id: "C15",
    rule: "File names (no, one, several extensions, other case, spaces, hidden, not UTF-8) times contents (in the file itself, behind links, or written into a pipe piecemeal; generated modules, ELF and Mach-O binaries of both classes and byte orders, cut and junk files with and without the magic number, empty) times modes; evaluation = one file read through the library, or one run of the command (two files for diff), compared with what the reader that ought to be used gives for the same bytes under a neutral name. Non-trivial: the two readers differ on the bytes; distinct by name, bytes and mode.",
    quick: 120_000,
    thorough: 3_000_000,
    run: c15,
    level: "exploration",
    cpu: 60,
    must: &[
        "auto, named wasm, wasm inside", "auto, named wasm, not wasm inside", "auto, other name, wasm inside", "auto, other name, not wasm inside", "explicit wasm", "explicit dwarf", "ELF", "Mach-O", "magic number and junk", "shorter than the magic number", "name that is not UTF-8",
        "through a link", "through a pipe", "command", "diff", "diff of two kinds", "accepted", "refused",
    ],
    mem: 6,
};

/// The content of a file: bytes, label.
fn content(r: &mut Rng) -> (Vec<u8>, &'static str) {
    match r.below(12) {
        0..=3 => (wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 4, max_other: 2, stmts: 2, ..Default::default() }).bytes, "module"),
        4..=6 => {
            let n = dwarfgen::gen(r, &dwarfgen::Cfg { max_units: 1, max_dies: 4, ..Default::default() });
            let l = if n.features.contains("ELF") { "ELF" } else { "Mach-O" };
            (n.bytes, l)
        }
        7 => {
            // the magic number, then something else
            let mut b = b"\0asm".to_vec();
            match r.below(4) {
                0 => {}
                1 => b.extend([2, 0, 0, 0]),
                2 => b.extend([1, 0, 0]),
                _ => b.extend((0..r.range(1, 40)).map(|_| r.u32() as u8)),
            }
            (b, "magic number and junk")
        }
        8 => {
            let n = r.below(4);
            (b"\0asm"[..n].to_vec(), "shorter than the magic number")
        }
        9 => {
            // nearly the magic number, in front of a module
            let mut b = wasmgen::gen(r, &wasmgen::Cfg { max_funcs: 2, max_other: 1, stmts: 1, ..Default::default() }).bytes;
            match r.below(3) {
                0 => b[r.below(4)] ^= 1 << r.below(8),
                1 => {
                    b.insert(0, *r.pick(&[0, b'\n', b' ', 0xef]));
                }
                _ => {
                    b.remove(r.below(4));
                }
            }
            (b, "nearly a module")
        }
        10 => {
            let n = r.range(1, 60);
            ((0..n).map(|_| r.u32() as u8).collect(), "junk")
        }
        _ => {
            let b: &[u8] = *r.pick(&[&b"(module)"[..], b"\x7fELF", b"!<arch>\n", b"\xcf\xfa\xed\xfe", b"MZ", b"\xca\xfe\xba\xbe", b"#!/bin/sh\n"]);
            (b.to_vec(), "other")
        }
    }
}

/// A file name and whether its extension is wasm.
fn name(r: &mut Rng) -> (OsString, bool, bool) {
    let stem = *r.pick(&["a", "a b", "wasm", "a.b", "x.tar", "é", "-", "a.wasm.b", "wasm.", "0"]);
    let ext: &[u8] = *r.pick(&[
        &b""[..],
        b".wasm",
        b".wasm",
        b".wasm",
        b".WASM",
        b".Wasm",
        b".wasm.bak",
        b".wasm ",
        b".wasm.",
        b".wasm~",
        b".wast",
        b".wat",
        b".was",
        b".wasmm",
        b".xwasm",
        b"wasm",
        b"_wasm",
        b".o",
        b".elf",
        b".dwarf",
        b".exe",
        b".so.1",
        b".\xffwasm",
        b".wasm\xff",
        b"\xff.wasm",
        b"\xfe",
    ]);
    let mut b = stem.as_bytes().to_vec();
    if stem == "-" && (ext.is_empty() || ext[0] != b'.') {
        b.push(b'x');
    }
    b.extend(ext);
    let is = b.len() > 5 && b.ends_with(b".wasm");
    let utf8 = std::str::from_utf8(&b).is_ok();
    (OsString::from_vec(b), is, utf8)
}

pub type Res = Result<Vec<String>, String>;
/// Everything observable of an item set.
pub fn dump(x: anyhow::Result<Items>) -> Res {
    x.map(|it| dump_of(&it)).map_err(|e| e.to_string())
}
pub fn dump_of(it: &Items) -> Vec<String> {
    let mut v = vec![format!("total {} root {:?}", it.size(), it.meta_root())];
    for i in it.iter() {
        let kind = match i.kind() {
            ir::ItemKind::Code(_) => "code",
            ir::ItemKind::Data(_) => "data",
            ir::ItemKind::Debug(_) => "debug",
            ir::ItemKind::Misc(_) => "misc",
        };
        let to: Vec<String> = it.neighbors(i.id()).map(|n| format!("{:?}", n)).collect();
        v.push(format!("{:?} {} {} {} {:?} -> {}", i.id(), i.name(), i.size(), kind, i.monomorphization_of(), to.join(" ")));
    }
    let to: Vec<String> = it.neighbors(it.meta_root()).map(|n| format!("{:?}", n)).collect();
    v.push(format!("roots {}", to.join(" ")));
    v
}
/// Equal results; refusals need not use the same words, but not the other reader's.
fn same(got: &Res, want: &Res, other: &Res) -> Result<(), String> {
    match (got, want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Ok(_), Ok(_)) => Err("gives other items than the reader it ought to use".into()),
        (Err(_), Ok(_)) => Err(format!("is refused ({}), though the reader it ought to use accepts it", got.as_ref().unwrap_err())),
        (Ok(_), Err(e)) => Err(format!("is accepted, though the reader it ought to use refuses it ({})", e)),
        (Err(a), Err(b)) => {
            if a != b && other.as_ref().err() == Some(a) {
                Err(format!("is refused in the other reader's words ({}; ought to: {})", a, b))
            } else {
                Ok(())
            }
        }
    }
}

struct Subject {
    bytes: Vec<u8>,
    what: &'static str,
    wasm: Res,
    dwarf: Res,
}
fn subject(c: &mut Ctx, r: &mut Rng, dir: &Path) -> Subject {
    let (bytes, what) = content(r);
    c.count(what);
    let p = dir.join("neutral");
    std::fs::write(&p, &bytes).unwrap();
    let wasm = dump(twiggy_parser::read_and_parse(&p, ParseMode::Wasm));
    let dwarf = dump(twiggy_parser::read_and_parse(&p, ParseMode::Dwarf));
    Subject { bytes, what, wasm, dwarf }
}
impl Subject {
    fn is_wasm(&self, ext: bool) -> bool {
        ext || self.bytes.starts_with(b"\0asm")
    }
    /// What ought to come out, and what would come out of the other reader.
    fn expect(&self, mode: &str, ext: bool) -> (&Res, &Res) {
        let w = match mode {
            "wasm" => true,
            "dwarf" => false,
            _ => self.is_wasm(ext),
        };
        if w {
            (&self.wasm, &self.dwarf)
        } else {
            (&self.dwarf, &self.wasm)
        }
    }
}

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}
/// What stands behind a name, as long as this lives: a file, a link to one (of another
/// name), or a pipe that somebody writes the bytes into a few at a time.
struct Laid {
    stop: Arc<AtomicBool>,
    writer: Option<std::thread::JoinHandle<()>>,
}
impl Drop for Laid {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(w) = self.writer.take() {
            let _ = w.join();
        }
    }
}
fn lay(c: &mut Ctx, r: &mut Rng, targets: &Path, p: &Path, bytes: &[u8]) -> Laid {
    let stop = Arc::new(AtomicBool::new(false));
    let _ = std::fs::remove_file(p);
    let mut writer = None;
    match r.below(48) {
        0..=5 => {
            let (n, _, _) = name(r);
            let t = targets.join(n);
            std::fs::write(&t, bytes).unwrap();
            if r.chance(1, 4) {
                let l = targets.join("the link");
                let _ = std::fs::remove_file(&l);
                std::os::unix::fs::symlink(&t, &l).unwrap();
                std::os::unix::fs::symlink(&l, p).unwrap();
            } else {
                std::os::unix::fs::symlink(&t, p).unwrap();
            }
            c.count("through a link");
        }
        6 if bytes.len() < 20_000 => {
            let z = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
            assert_eq!(unsafe { mkfifo(z.as_ptr(), 0o600) }, 0);
            let (p, stop, mut bytes) = (p.to_path_buf(), stop.clone(), bytes.to_vec());
            let most = *r.pick(&[1usize, 3, 7, 100, 4096, 1 << 20]).max(&(bytes.len() / 50 + 1));
            let naps = r.bool();
            writer = Some(std::thread::spawn(move || {
                // A reader that comes again finds an empty file.
                while !stop.load(Ordering::SeqCst) {
                    let Ok(mut w) = std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(&p) else {
                        std::thread::sleep(Duration::from_micros(100));
                        continue;
                    };
                    while !bytes.is_empty() && !stop.load(Ordering::SeqCst) {
                        match w.write(&bytes[..most.min(bytes.len())]) {
                            Ok(n) => {
                                bytes.drain(..n);
                            }
                            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_micros(50)),
                            Err(_) => bytes.clear(),
                        }
                        if naps {
                            std::thread::sleep(Duration::from_micros(20));
                        } else {
                            std::thread::yield_now();
                        }
                    }
                    drop(w);
                    std::thread::sleep(Duration::from_micros(200));
                }
            }));
            c.count("through a pipe");
        }
        _ => std::fs::write(p, bytes).unwrap(),
    }
    Laid { stop, writer }
}

fn c15(c: &mut Ctx) {
    let mut r = c.rng(15);
    let dir = c.scratch.join("c15");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("d.wasm")).unwrap();
    std::fs::create_dir_all(dir.join("d")).unwrap();
    std::fs::create_dir_all(dir.join("targets")).unwrap();
    run15(c, &mut r, &dir);
    let _ = std::fs::remove_dir_all(&dir);
}
fn run15(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    let s = subject(c, r, dir);
    let differ = s.wasm != s.dwarf;
    let place = |r: &mut Rng, n: &OsStr| dir.join(*r.pick(&["d", "d.wasm", "d/../d"])).join(n);
    for _ in 0..6 {
        let (n, ext, utf8) = name(r);
        let p = place(r, &n);
        let laid = lay(c, r, &dir.join("targets"), &p, &s.bytes);
        let (mode, m) = *r.pick(&[("auto", ParseMode::Auto), ("auto", ParseMode::Auto), ("wasm", ParseMode::Wasm), ("dwarf", ParseMode::Dwarf)]);
        let (want, other) = s.expect(mode, ext);
        let got = dump(twiggy_parser::read_and_parse(&p, m));
        drop(laid);
        let mut key = s.bytes.clone();
        key.extend(n.as_bytes());
        key.extend(mode.bytes());
        if differ {
            c.eval(&key);
        } else {
            c.eval_trivial();
        }
        let magic = s.bytes.starts_with(b"\0asm");
        c.count(&match mode {
            "auto" => format!("auto, {}, {}", if ext { "named wasm" } else { "other name" }, if magic { "wasm inside" } else { "not wasm inside" }),
            m => format!("explicit {}", m),
        });
        if !utf8 {
            c.count("name that is not UTF-8");
        }
        c.count(if want.is_ok() { "accepted" } else { "refused" });
        c.sample(|| format!("{:?} ({}, {} bytes) in mode {}: {}", n, s.what, s.bytes.len(), mode, if want.is_ok() { "accepted" } else { "refused" }));
        if let Err(e) = same(&got, want, other) {
            c.fail(format!("{:?} ({}, {} bytes starting {:02x?}) in mode {} {}", n, s.what, s.bytes.len(), &s.bytes[..s.bytes.len().min(12)], mode, e));
        }
        let _ = std::fs::remove_file(&p);
    }
    if !r.chance(1, 3) {
        return;
    }
    // the command
    let sub = *r.pick(&["diff", "top", "dominators", "paths", "monos", "garbage", "diff"]);
    c.count("command");
    let mut q = query::gen(r, sub, &[], false);
    if sub == "paths" {
        q.flags.extend(["-d".into(), "3".into()]);
    }
    let f = cli::fmt(r);
    let mode = *r.pick(&["", "auto", "wasm", "dwarf"]);
    let two = if sub == "diff" { Some(subject(c, r, dir)) } else { None };
    let mk = |c: &mut Ctx, r: &mut Rng, side: &str, s: &Subject| {
        let (n, ext, _) = name(r);
        std::fs::create_dir_all(dir.join(side)).unwrap();
        let p = dir.join(side).join(n);
        let targets = dir.join("targets").join(side);
        std::fs::create_dir_all(&targets).unwrap();
        let laid = lay(c, r, &targets, &p, &s.bytes);
        (p, ext, laid)
    };
    let (p1, e1, laid1) = mk(c, r, "old", &s);
    let second = two.as_ref().map(|t| mk(c, r, "new", t));
    let mut extra: Vec<OsString> = vec![];
    if !mode.is_empty() {
        if r.bool() {
            extra.push("--mode".into());
            extra.push(mode.into());
        } else {
            extra.push(format!("--mode={}", mode).into());
        }
    }
    let args = cli::cmdline(&q, f, &extra, &p1, second.as_ref().map(|x| x.0.as_path()));
    let d = proc::run(&args);
    drop(laid1);
    // what ought to come out
    let read = |s: &Subject, ext: bool, side: &str| -> Option<Items> {
        let w = match mode {
            "wasm" => true,
            "dwarf" => false,
            _ => s.is_wasm(ext),
        };
        let p = dir.join(format!("plain-{}", side));
        std::fs::write(&p, &s.bytes).unwrap();
        twiggy_parser::read_and_parse(&p, if w { ParseMode::Wasm } else { ParseMode::Dwarf }).ok()
    };
    let a = read(&s, e1, "old");
    let b = match (&two, &second) {
        (Some(t), Some(x)) => Some(read(t, x.1, "new")),
        _ => None,
    };
    if let Some(t) = &two {
        c.count("diff");
        if s.is_wasm(e1) != t.is_wasm(second.as_ref().unwrap().1) {
            c.count("diff of two kinds");
        }
    }
    let want: Option<String> = match (a, b) {
        (Some(mut a), None) => Some(run_fmt(&mut a, None, &q.options(), f).unwrap()),
        (Some(mut a), Some(Some(mut b))) => Some(run_fmt(&mut a, Some(&mut b), &q.options(), f).unwrap()),
        _ => None,
    };
    let mut key = s.bytes.clone();
    key.extend(format!("{:?}", args.iter().map(|a| a.to_string_lossy().into_owned()).collect::<Vec<_>>()).bytes());
    c.eval(&key);
    let m = match &want {
        Some(w) => {
            c.count("command accepts");
            if !d.ok() {
                "refuses what the reader it ought to use accepts"
            } else if d.out != w.as_bytes() {
                "prints something other than with the reader it ought to use"
            } else {
                ""
            }
        }
        None => {
            c.count("command refuses");
            if d.ok() {
                "accepts what the reader it ought to use refuses"
            } else {
                ""
            }
        }
    };
    if !m.is_empty() {
        c.fail(format!("twiggy {:?} (first file: {}, second: {:?}) {}: {}", args, s.what, two.as_ref().map(|t| t.what), m, d.brief()));
    }
}
