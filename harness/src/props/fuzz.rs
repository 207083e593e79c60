//! C12: whatever bytes are given, reading them and analysing the result ends
//! with a result or a reported error.
use crate::ctx::Ctx;
use crate::dwarfgen;
use crate::rng::Rng;
use crate::sut::*;
use crate::wasmgen;
use crate::Prop;
use twiggy_traits::ParseMode;

pub const C12: Prop = Prop {
    id: "C12",
    rule: "Byte strings: generated modules and native binaries, real compiled ones, and a corpus kept from a coverage-guided search (which is also run as it is), each with random damage (bytes, integers, whole sections, counts, truncation, splices), deep and repetitive structures, and random bytes; evaluation = one string read in one parse mode and, where that succeeds, every analysis in every format run on the result, with panics, overflow checks, crashes and time watched, references and the sum of sizes judged. Non-trivial: every evaluation; distinct by bytes.",
    quick: 300_000,
    thorough: 20_000_000,
    run: c12,
    level: "exploration",
    cpu: 120,
    must: &["wasm accepted", "wasm refused", "native accepted", "native refused", "wasm damaged accepted", "native damaged accepted", "chains", "real files damaged", "corpus", "corpus damaged"],
    mem: 8,
};

fn uleb_at(b: &[u8], mut k: usize) -> Option<(u64, usize)> {
    let (mut v, mut sh, at) = (0u64, 0, k);
    loop {
        let x = *b.get(k)?;
        k += 1;
        if sh < 63 {
            v |= u64::from(x & 0x7f) << sh;
        }
        sh += 7;
        if x & 0x80 == 0 {
            return Some((v, k - at));
        }
        if sh > 70 {
            return None;
        }
    }
}
/// Sections of a module: id, content.
fn sections(b: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let mut k = 8;
    let mut out = vec![];
    while k < b.len() {
        let id = b[k];
        let (n, l) = uleb_at(b, k + 1)?;
        let s = k + 1 + l;
        let e = s.checked_add(n as usize)?;
        out.push((id, b.get(s..e)?.to_vec()));
        k = e;
    }
    Some(out)
}
fn join(head: &[u8], s: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = head.to_vec();
    for (id, d) in s {
        o.push(*id);
        dwarfgen::uleb(&mut o, d.len() as u64);
        o.extend(d);
    }
    o
}
const ODD: [u64; 14] = [0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX, u64::MAX - 1];

pub fn damage_bytes(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.skewed(12) {
        if b.is_empty() {
            b.push(r.u32() as u8);
            continue;
        }
        let k = r.below(b.len());
        match r.below(14) {
            0 => b[k] ^= 1 << r.below(8),
            1 | 2 => b[k] = r.u32() as u8,
            3 => b[k] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x0b, 0x41, 0x10, 0x23]),
            4 => b.insert(k, r.u32() as u8),
            5 => {
                b.remove(k);
            }
            6 => b[k] = b[k].wrapping_add(1),
            7 => b[k] = b[k].wrapping_sub(1),
            8 => {
                let n = r.below(40).min(b.len() - k);
                let x: Vec<u8> = b[k..k + n].to_vec();
                let at = r.below(b.len());
                b.splice(at..at, x);
            }
            9 => {
                let n = r.below(40).min(b.len() - k);
                b.drain(k..k + n);
            }
            10 => {
                // a wide integer in either byte order
                let v = *r.pick(&ODD);
                let n = *r.pick(&[2usize, 4, 8]);
                let big = r.bool();
                for i in 0..n.min(b.len() - k) {
                    b[k + i] = (v >> (8 * if big { n - 1 - i } else { i })) as u8;
                }
            }
            11 => {
                let mut x = vec![];
                dwarfgen::uleb(&mut x, *r.pick(&ODD));
                b.splice(k..k + 1, x);
            }
            12 if r.chance(1, 4) => b.truncate(k),
            _ => {
                let j = r.below(b.len());
                b.swap(k, j);
            }
        }
    }
}

/// Damage that keeps the module's frame intact, so that it reaches further.
pub fn damage_wasm(r: &mut Rng, b: &[u8], other: &[u8]) -> Vec<u8> {
    let Some(mut s) = (if b.len() < 8 { None } else { sections(b) }) else {
        let mut v = b.to_vec();
        damage_bytes(r, &mut v);
        return v;
    };
    let mut head = b[..8].to_vec();
    for _ in 0..r.range(1, 3) {
        if s.is_empty() {
            break;
        }
        let k = r.below(s.len());
        match r.below(12) {
            0 => {
                let x = s[k].clone();
                let at = r.below(s.len() + 1);
                s.insert(at, x);
            }
            1 => {
                s.remove(k);
            }
            2 => {
                let j = r.below(s.len());
                s.swap(k, j);
            }
            3 => s[k].0 = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 127]),
            4 => {
                let n = s[k].1.len();
                s[k].1.truncate(r.below(n + 1));
            }
            5 => {
                // another count
                if let Some((v, l)) = uleb_at(&s[k].1, 0) {
                    let nv = match r.below(5) {
                        0 => v.wrapping_add(1),
                        1 => v.wrapping_sub(1),
                        2 => 0,
                        3 => v / 2,
                        _ => *r.pick(&ODD),
                    } & 0xffff_ffff;
                    let mut x = vec![];
                    dwarfgen::uleb(&mut x, nv);
                    s[k].1.splice(0..l, x);
                }
            }
            6 => {
                if let Some(o) = sections(other) {
                    if !o.is_empty() {
                        let x = r.pick(&o).clone();
                        let at = r.below(s.len() + 1);
                        s.insert(at, x);
                    }
                }
            }
            7 => {
                let n = r.below(6);
                s[k].1.extend((0..n).map(|_| r.u32() as u8));
            }
            8 if r.chance(1, 6) => {
                // a module inside the module
                let x = (14u8, {
                    let mut v = vec![];
                    dwarfgen::uleb(&mut v, 1);
                    dwarfgen::uleb(&mut v, other.len() as u64);
                    v.extend(other);
                    v
                });
                s.insert(k, x);
                if r.bool() {
                    head[4] = 0x0a;
                }
            }
            8 => {
                // references to things that are not there
                let d = &mut s[k].1;
                if d.len() > 2 {
                    let at = r.range(1, d.len() - 1);
                    if d[at] < 0x80 {
                        let mut x = vec![];
                        dwarfgen::uleb(&mut x, *r.pick(&[5u64, 13, 50, 127, 128, 300, 0xffff_ffff]));
                        d.splice(at..at + 1, x);
                    }
                }
            }
            9 => {
                let mut d = vec![4];
                d.extend(b"name");
                for _ in 0..r.range(1, 3) {
                    let sub = r.below(14) as u8;
                    let mut x = vec![];
                    for _ in 0..r.below(12) {
                        x.push(r.below(10) as u8);
                    }
                    d.push(sub);
                    dwarfgen::uleb(&mut d, if r.chance(1, 4) { r.below(200) as u64 } else { x.len() as u64 });
                    d.extend(x);
                }
                let at = r.below(s.len() + 1);
                s.insert(at, (0, d));
            }
            _ => damage_bytes(r, &mut s[k].1),
        }
    }
    join(&head, &s)
}

/// Functions that call one another in one long chain.
fn chain(n: usize, ring: bool) -> Vec<u8> {
    let mut types = vec![1, 0x60, 0, 0];
    let mut funcs = vec![];
    dwarfgen::uleb(&mut funcs, n as u64);
    funcs.resize(funcs.len() + n, 0);
    let mut code = vec![];
    dwarfgen::uleb(&mut code, n as u64);
    for k in 0..n {
        let mut b = vec![0];
        if k + 1 < n || ring {
            b.push(0x10);
            dwarfgen::uleb(&mut b, ((k + 1) % n) as u64);
        }
        b.push(0x0b);
        dwarfgen::uleb(&mut code, b.len() as u64);
        code.extend(b);
    }
    types.truncate(4);
    let export = vec![1, 1, b'f', 0, 0];
    join(b"\0asm\x01\0\0\0", &[(1, types), (3, funcs), (7, export), (10, code)])
}
/// A function with blocks nested n deep.
fn nest(n: usize) -> Vec<u8> {
    let mut b = vec![0];
    for _ in 0..n {
        b.extend([0x02, 0x40]);
    }
    b.resize(b.len() + n + 1, 0x0b);
    let mut code = vec![1];
    dwarfgen::uleb(&mut code, b.len() as u64);
    code.extend(b);
    join(b"\0asm\x01\0\0\0", &[(1, vec![1, 0x60, 0, 0]), (3, vec![1, 0]), (10, code)])
}

fn real(r: &mut Rng) -> Option<(Vec<u8>, bool)> {
    thread_local! {
        static FILES: Vec<std::path::PathBuf> = {
            let mut v = vec![];
            for d in ["/repo/twiggy/tests/all/fixtures", "/verif/target/samples"] {
                v.extend(std::fs::read_dir(d).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.metadata().map_or(false, |m| m.len() < 300_000)).filter(|p| p.extension().map_or(false, |x| x == "wasm" || x == "elf" || x == "exe")).collect::<Vec<_>>()).unwrap_or_default());
            }
            v.sort();
            v
        };
    }
    FILES.with(|f| if f.is_empty() { None } else { Some(r.pick(f).clone()) }).and_then(|p| Some((std::fs::read(&p).ok()?, p.extension().map_or(false, |x| x == "wasm"))))
}

/// Inputs the coverage-guided search (fuzz/) kept: how to read, then the bytes.
fn corpus() -> &'static [Vec<u8>] {
    static ALL: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let b = std::fs::read(crate::root().join("harness/corpus.bin")).expect("harness/corpus.bin");
        let (mut k, mut v) = (0, vec![]);
        while k + 4 <= b.len() {
            let n = u32::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]]) as usize;
            v.push(b[k + 4..k + 4 + n].to_vec());
            k += 4 + n;
        }
        assert!(k == b.len() && !v.is_empty(), "harness/corpus.bin is damaged");
        v
    })
}
fn of_corpus(r: &mut Rng) -> (Vec<u8>, bool) {
    let e = r.pick(corpus());
    (e[1..].to_vec(), e[0] % 2 == 0)
}

pub const QUERIES: [(&str, &[&str]); 17] = [
    ("top", &[]),
    ("top", &["--retained", "-n", "3"]),
    ("top", &["-n", "0"]),
    ("dominators", &[]),
    ("dominators", &["-d", "2", "-r", "5"]),
    ("dominators", &["--regex", "--", "."]),
    ("paths", &["-d", "3", "-r", "2"]),
    ("paths", &["--descending", "-d", "3", "-r", "2"]),
    ("paths", &["-d", "2", "-r", "1", "--regex", "--", "^[a-f]"]),
    ("monos", &[]),
    ("monos", &["-m", "1", "-n", "1"]),
    ("monos", &["-g"]),
    ("garbage", &[]),
    ("garbage", &["--show-data-segments", "-n", "2"]),
    ("diff", &[]),
    ("diff", &["-n", "1"]),
    ("diff", &["--regex", "--", "s"]),
];

fn c12(c: &mut Ctx) {
    let mut r = c.rng(12);
    let wcfg = wasmgen::Cfg { hostile_names: r.bool(), odd: r.chance(1, 4), ..wasmgen::Cfg::default() };
    let (bytes, wasm, what): (Vec<u8>, bool, &str) = match if c.case < 24 + corpus().len() as u64 { 100 + c.case as usize } else { r.below(26) } {
        k @ 100..=123 => {
            let n = [10, 100, 1000, 5000, 20_000, 60_000][(k - 100) % 6];
            match (k - 100) / 6 {
                0 => (chain(n, false), true, "chains"),
                1 => (chain(n, true), true, "chains"),
                2 => (nest(n * 20), true, "nested blocks"),
                _ => {
                    let b = *r.pick(&[0u8, 0xff, 0x80, 0x41, 0x7f]);
                    let mut v = if k % 2 == 0 { b"\0asm\x01\0\0\0".to_vec() } else { b"\x7fELF\x02\x01\x01".to_vec() };
                    v.resize(v.len() + n, b);
                    (v, k % 2 == 0, "repeated byte")
                }
            }
        }
        k @ 124.. => {
            let e = &corpus()[k - 124];
            (e[1..].to_vec(), e[0] % 2 == 0, "corpus")
        }
        20..=25 => {
            let (a, w) = of_corpus(&mut r);
            let b = match r.below(4) {
                0 | 1 => {
                    let mut b = a;
                    damage_bytes(&mut r, &mut b);
                    b
                }
                2 if w => {
                    let o = of_corpus(&mut r).0;
                    damage_wasm(&mut r, &a, &o)
                }
                2 => {
                    let mut b = a;
                    if !b.is_empty() {
                        let k = r.below(b.len());
                        b[k] = r.u32() as u8;
                    }
                    b
                }
                _ => {
                    // the start of one and the end of another
                    let o = of_corpus(&mut r).0;
                    let k = r.below(a.len() + 1);
                    let j = r.below(o.len() + 1);
                    [&a[..k], &o[if r.bool() { k.min(o.len()) } else { j }..]].concat()
                }
            };
            (b, w, "corpus damaged")
        }
        0 => (wasmgen::gen(&mut r, &wcfg).bytes, true, "whole"),
        1..=3 => {
            let mut b = wasmgen::gen(&mut r, &wcfg).bytes;
            damage_bytes(&mut r, &mut b);
            (b, true, "bytes damaged")
        }
        4..=9 => {
            let a = wasmgen::gen(&mut r, &wcfg).bytes;
            let o = wasmgen::gen(&mut r, &wcfg).bytes;
            (damage_wasm(&mut r, &a, &o), true, "sections damaged")
        }
        10..=14 => {
            let cfg = dwarfgen::Cfg { max_units: 2, max_dies: 8, ..dwarfgen::Cfg::default() };
            let m = dwarfgen::gen(&mut r, &cfg);
            let mut b = m.bytes;
            if !r.chance(1, 10) {
                damage_bytes(&mut r, &mut b);
            }
            (b, false, "bytes damaged")
        }
        15 | 16 => match real(&mut r) {
            Some((mut b, w)) => {
                c.count("real files damaged");
                if w && r.bool() {
                    let o = wasmgen::gen(&mut r, &wcfg).bytes;
                    b = damage_wasm(&mut r, &b, &o);
                } else {
                    damage_bytes(&mut r, &mut b);
                }
                (b, w, "real damaged")
            }
            None => return c.count("no real files"),
        },
        17 => {
            let n = r.skewed(300);
            let mut b: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
            let w = r.bool();
            let mut h = match r.below(4) {
                0 => vec![],
                1 => b"\0asm\x01\0\0\0".to_vec(),
                2 => b"\0asm".to_vec(),
                _ => r.pick(&[&b"\x7fELF"[..], b"MZ", b"\xfe\xed\xfa\xcf", b"\xcf\xfa\xed\xfe", b"!<arch>\n", b"\xca\xfe\xba\xbe", b"PE\0\0"]).to_vec(),
            };
            h.append(&mut b);
            (h, w, "random")
        }
        _ => {
            // a truncation at every kind of place
            let b = if r.bool() { wasmgen::gen(&mut r, &wcfg).bytes } else { dwarfgen::gen(&mut r, &dwarfgen::Cfg::default()).bytes };
            let k = r.below(b.len() + 1);
            let w = b.starts_with(b"\0asm");
            (b[..k].to_vec(), w, "truncated")
        }
    };
    c.count(what);
    judge(c, &mut r, &bytes, wasm, what);
}

fn keep(c: &Ctx, b: &[u8]) -> String {
    let d = std::path::Path::new("/verif/replays");
    let _ = std::fs::create_dir_all(d);
    let f = d.join(format!("case-{}-{}.bin", c.seed, c.case));
    let _ = std::fs::write(&f, b);
    format!("input in {}", f.display())
}

/// Runs code under test; a panic becomes an error that names its place.
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {} ({})", m, crate::LAST_PANIC.with(|l| l.borrow().clone()))
    })
}

fn judge(c: &mut Ctx, r: &mut Rng, bytes: &[u8], wasm: bool, what: &str) {
    c.eval(bytes);
    // the reader it is meant for, mostly; sometimes another mode
    let mode = r.below(8);
    let file = c.scratch.join(*r.pick(&["in.bin", "in.wasm", "in", "in.o"]));
    let dwarf = match mode {
        0 => true,
        1 => false,
        _ => !wasm,
    };
    let parsed = guard(|| {
        if !dwarf && mode != 2 {
            twiggy_parser::parse(bytes).map_err(|e| e.to_string())
        } else {
            std::fs::write(&file, bytes).unwrap();
            let m = match (dwarf, mode) {
                (_, 2) => ParseMode::Auto,
                (true, _) => ParseMode::Dwarf,
                _ => ParseMode::Wasm,
            };
            twiggy_parser::read_and_parse(&file, m).map_err(|e| e.to_string())
        }
    });
    let kind = if dwarf { "native" } else { "wasm" };
    let items = match parsed {
        Err(p) => {
            let d = keep(c, bytes);
            let sig = signature(&p);
            return c.fail_sig(&sig, format!("reading ({}): {} ({})", kind, p, d));
        }
        Ok(Err(_)) => return c.count(&format!("{} refused", kind)),
        Ok(Ok(i)) => i,
    };
    c.count(&format!("{} accepted", kind));
    if what.contains("damaged") {
        c.count(&format!("{} damaged accepted", kind));
    }
    c.sample(|| format!("{} ({}, {} bytes): {} items", kind, what, bytes.len(), items.iter().count()));
    if let Err(e) = Graph::of(&items) {
        let d = keep(c, bytes);
        return c.fail(format!("{} ({})", e, d));
    }
    if !dwarf && (mode != 2 || bytes.starts_with(b"\0asm")) {
        let sum: u64 = items.iter().map(|i| u64::from(i.size())).sum();
        if sum != bytes.len() as u64 {
            let d = keep(c, bytes);
            return c.fail(format!("item sizes sum to {}, the file has {} bytes ({})", sum, bytes.len(), d));
        }
    }
    let mut items = items;
    let deep = depth(&mut items) > 2000;
    let big = items.iter().count() > 3000;
    if what == "chains" {
        // paths as long as the chain
        let last = format!("code[{}]", items.iter().filter(|i| i.name().starts_with("code[")).count().max(1) - 1);
        let desc = r.bool();
        let from = if desc { "code[0]" } else { last.as_str() };
        let mut args = vec!["-d".to_string(), u32::MAX.to_string()];
        if desc {
            args.push("--descending".into());
        }
        args.extend(["--".to_string(), from.to_string()]);
        let o = options("paths", &args).unwrap();
        // the table takes space in the order of the length squared
        let fmt = if items.iter().count() < 4000 { *r.pick(&FMTS) } else { *r.pick(&[Fmt::Json, Fmt::Csv]) };
        match guard(|| run_fmt(&mut items, None, &o, fmt)) {
            Ok(Ok(_)) => c.count("paths along whole chains"),
            Ok(Err(e)) => {
                let d = keep(c, bytes);
                return c.fail(format!("paths {:?} as {} failed: {} ({})", args, fmt.name(), e, d));
            }
            Err(p) => {
                let d = keep(c, bytes);
                return c.fail_sig(&signature(&p), format!("paths {:?} as {}: {} ({})", args, fmt.name(), p, d));
            }
        }
    }
    for (k, (sub, args)) in QUERIES.iter().enumerate() {
        if big && !r.chance(1, 3) && k > 5 {
            continue;
        }
        let fmt = FMTS[(k + c.case as usize) % 3];
        // A text table of n levels takes space in the order of n squared, and so
        // does the subtree of every item.
        if deep && *sub == "dominators" && ((fmt == FMTS[0] && !args.contains(&"-d")) || args.contains(&"--regex")) {
            continue;
        }
        let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let o = options(sub, &a).unwrap();
        let res = guard(|| {
            if *sub == "diff" {
                let mut n = twiggy_parser::parse(&chain(3, false)).unwrap();
                run_fmt(&mut items, Some(&mut n), &o, fmt)
            } else {
                run_fmt(&mut items, None, &o, fmt)
            }
        });
        c.count("analyses");
        match res {
            Err(p) => {
                let d = keep(c, bytes);
                c.fail_sig(&signature(&p), format!("{} {:?} as {}: {} ({})", sub, args, fmt.name(), p, d));
                return;
            }
            Ok(Err(e)) => {
                let d = keep(c, bytes);
                c.fail(format!("{} {:?} as {} failed: {} ({})", sub, args, fmt.name(), e, d));
                return;
            }
            Ok(Ok(_)) => {}
        }
    }
}

/// The depth of the dominator tree.
fn depth(items: &mut twiggy_ir::Items) -> usize {
    let Ok(()) = guard(|| items.compute_dominator_tree()) else { return 0 };
    let t = items.dominator_tree();
    let mut level = vec![items.meta_root()];
    let mut n = 0;
    while !level.is_empty() {
        n += 1;
        level = level.iter().filter_map(|i| t.get(i)).flatten().copied().collect();
    }
    n
}

const LIBS: [&str; 7] = ["goblin", "scroll", "object", "gimli", "wasmparser", "parity-wasm", "cpp_demangle"];

/// The innermost frame of a backtrace that belongs to a library.
pub fn library_frame(bt: &str) -> Option<String> {
    for l in bt.lines() {
        let l = l.trim();
        if l.starts_with("at ") {
            if l.contains("/repo/") {
                return None;
            }
            if let Some(k) = l.find("/registry/src/") {
                return Some(l[k..].rsplitn(2, ':').last().unwrap_or("").to_string());
            }
        }
    }
    None
}

/// Names panics inside the libraries by their place, so that recorded ones can
/// be told apart; twiggy's own get no name.
fn signature(p: &str) -> String {
    for lib in LIBS {
        let pat = format!("/{}-", lib);
        if let Some(k) = p.find(&pat) {
            let s = &p[k + 1..];
            let s = s.split([' ', ')']).next().unwrap_or("");
            return s.to_string();
        }
    }
    String::new()
}

/// pack FILE DIR...: writes the corpus from the search's directories.
pub fn pack(a: &[String]) -> i32 {
    let mut out = vec![];
    for d in &a[1..] {
        let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
        v.sort();
        for p in v {
            let b = std::fs::read(p).unwrap();
            if !b.is_empty() {
                out.extend((b.len() as u32).to_le_bytes());
                out.extend(b);
            }
        }
    }
    std::fs::write(&a[0], out).unwrap();
    0
}

/// seeds DIR N: inputs from which the coverage-guided search (fuzz/) starts.
pub fn seeds(a: &[String]) -> i32 {
    let d = std::path::Path::new(&a[0]);
    let n: u64 = a[1].parse().unwrap();
    std::fs::create_dir_all(d).unwrap();
    for k in 0..n {
        let mut r = Rng::new(k ^ 0x5eed);
        let mut b = vec![(k % 2) as u8];
        if k % 2 == 0 {
            b.extend(wasmgen::gen(&mut r, &wasmgen::Cfg::default()).bytes);
        } else {
            b.extend(dwarfgen::gen(&mut r, &dwarfgen::Cfg { max_units: 2, max_dies: 6, ..dwarfgen::Cfg::default() }).bytes);
        }
        std::fs::write(d.join(format!("seed-{}", k)), b).unwrap();
    }
    0
}
