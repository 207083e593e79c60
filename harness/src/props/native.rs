//! C18: what the reader of native binaries reports, against debugging
//! information whose contents are known by construction, and against an
//! independent dumper on real binaries.
use crate::ctx::Ctx;
use crate::dwarfgen::{self, Cfg, Native};
use crate::sut::*;
use crate::Prop;
use std::collections::BTreeMap;
use twiggy_ir as ir;
use twiggy_traits::ParseMode;

pub const C18: Prop = Prop {
    id: "C18",
    rule: "Random linked ELF and Mach-O binaries (32/64 bit, both byte orders, DWARF versions 2 to 5 in both formats, every form of names, addresses and ranges, compressed sections) generated with ground truth, and real binaries judged with llvm-dwarfdump; evaluation = one binary read, the multiset of (name, size) of all items compared with the truth. Non-trivial: at least one subprogram with code; distinct by file bytes.",
    quick: 300_000,
    thorough: 4_000_000,
    run: c18,
    level: "exploration",
    cpu: 60,
    must: &["version 2", "version 3", "version 4", "version 5", "ELF", "Mach-O", "real binaries", "nested subprogram", "nested a hundred deep", "entries after deep ones", "beyond 65536 units", "beyond 65536 entries", "unnamed subprogram", "several ranges", "subprogram declaration", "code at address zero", "range at address zero", "subprogram of two gigabytes"],
    mem: 6,
};

pub fn read(c: &Ctx, bytes: &[u8], file: &str, mode: ParseMode) -> Result<Items, String> {
    let f = c.scratch.join(file);
    std::fs::write(&f, bytes).unwrap();
    twiggy_parser::read_and_parse(&f, mode).map_err(|e| e.to_string())
}

fn keep(c: &Ctx, m: &Native) -> String {
    let d = std::path::Path::new("/verif/replays");
    let _ = std::fs::create_dir_all(d);
    let f = d.join(format!("case-{}-{}.bin", c.seed, c.case));
    let _ = std::fs::write(&f, &m.bytes);
    format!("binary in {}", f.display())
}

type Bag = BTreeMap<(String, u64), i64>;
fn short(a: &Bag, b: &Bag) -> String {
    let miss: Vec<_> = a.iter().filter(|(k, n)| b.get(*k).copied().unwrap_or(0) < **n).map(|x| x.0).take(4).collect();
    let extra: Vec<_> = b.iter().filter(|(k, n)| a.get(*k).copied().unwrap_or(0) < **n).map(|x| x.0).take(4).collect();
    format!("missing {:?}; unexpected {:?}", miss, extra)
}
fn judge(want: &[(String, u64)], it: &Items, len: usize) -> Result<(), String> {
    let mut w: Bag = BTreeMap::new();
    for x in want {
        *w.entry(x.clone()).or_insert(0) += 1;
    }
    let mut g: Bag = BTreeMap::new();
    for i in it.iter() {
        if i.id() == it.meta_root() {
            continue;
        }
        if !matches!(i.kind(), ir::ItemKind::Code(_)) {
            return Err(format!("{:?} is not code", i.name()));
        }
        *g.entry((i.name().to_string(), u64::from(i.size()))).or_insert(0) += 1;
    }
    if w != g {
        return Err(format!("subprograms differ: {}", short(&w, &g)));
    }
    if u64::from(it.size()) != len as u64 {
        return Err(format!("the file has {} bytes, reported {}", len, it.size()));
    }
    Ok(())
}

fn c18(c: &mut Ctx) {
    if c.case == 0 {
        return real(c);
    }
    let mut r = c.rng(18);
    let mut cfg = Cfg { huge: r.chance(1, 8), ..Cfg::default() };
    match r.below(12) {
        0 => cfg.max_dies = 120,
        1 => cfg.max_units = 30,
        2 | 3 => {
            cfg.max_units = 1;
            cfg.max_dies = 4;
        }
        _ => {}
    }
    let mut beyond = "";
    if r.chance(1, 20_000) {
        // more units, or entries of one unit, than sixteen bits can count
        let n = r.range(66_000, 70_000);
        let units = r.bool();
        cfg = Cfg { max_units: if units { n } else { 1 }, max_dies: if units { 1 } else { n }, exact: true, most: 0x7fff, names: (0..500).map(|_| crate::names::ident(&mut r)).collect(), ..Cfg::default() };
        beyond = if units { "beyond 65536 units" } else { "beyond 65536 entries" };
    }
    let m = dwarfgen::gen(&mut r, &cfg);
    for f in &m.features {
        c.count(f);
    }
    if m.subs.iter().map(|s| s.size).sum::<u64>() > u64::from(u32::MAX) {
        c.count("binaries of more code than 32 bits count");
        return c.eval_trivial();
    }
    c.add("subprograms with code", m.subs.len() as u64);
    if m.subs.is_empty() {
        c.eval_trivial();
    } else {
        c.eval(&m.bytes);
    }
    c.sample(|| format!("{} bytes, {} subprograms with code: {}", m.bytes.len(), m.subs.len(), m.features.iter().cloned().collect::<Vec<_>>().join(", ")));
    if m.subs.iter().any(|s| s.name.is_none()) {
        c.count("binaries with a name too long to insist on");
        return;
    }
    if std::env::var_os("VH_SELF").is_some() {
        // development aid: does an independent dumper agree with the generator?
        let f = c.scratch.join("self.bin");
        std::fs::write(&f, &m.bytes).unwrap();
        let mut a: Vec<u64> = m.subs.iter().map(|s| s.size).collect();
        a.sort();
        let b = dump(&f).map(|v| {
            let mut v: Vec<u64> = v.into_iter().map(|x| x.1).collect();
            v.sort();
            v
        });
        if b.as_ref() != Some(&a) {
            let d = keep(c, &m);
            c.fail(format!("self-check: {:?} {:?} ({})", a, b, d));
        }
        return;
    }
    if !beyond.is_empty() {
        c.count(beyond);
    }
    let mode = if r.bool() { ParseMode::Dwarf } else { ParseMode::Auto };
    let it = match read(c, &m.bytes, "in.bin", mode) {
        Ok(i) => i,
        Err(e) => {
            let d = keep(c, &m);
            return c.fail(format!("well-formed binary refused: {} ({})", e, d));
        }
    };
    let want: Vec<(String, u64)> = m.subs.iter().map(|s| (s.name.clone().unwrap(), s.size)).collect();
    if let Err(e) = judge(&want, &it, m.bytes.len()) {
        let d = keep(c, &m);
        c.fail(format!("{} ({})", e, d));
    }
}

/// Subprograms with code as llvm-dwarfdump sees them.
fn dump(f: &std::path::Path) -> Option<Vec<(String, u64)>> {
    let o = std::process::Command::new("llvm-dwarfdump").arg("--debug-info").arg(f).output().ok()?;
    if !o.status.success() {
        return None;
    }
    let t = String::from_utf8(o.stdout).ok()?;
    let mut out = vec![];
    let mut unit: i64 = -1;
    let mut entry: i64 = -1;
    struct D {
        sub: bool,
        link: Option<String>,
        name: Option<String>,
        low: Option<u64>,
        high: Option<u64>,
        len: Option<u64>,
        ranges: Option<u64>,
        pos: (i64, i64),
    }
    let mut cur: Option<D> = None;
    let mut flush = |d: Option<D>| {
        let Some(d) = d else { return };
        if !d.sub {
            return;
        }
        let size = match (d.low, d.high, d.ranges) {
            (Some(_), None, _) if d.len.is_some() => d.len.unwrap(),
            (Some(l), Some(h), _) => h.checked_sub(l).unwrap_or(h),
            (_, _, Some(r)) => r,
            _ => return,
        };
        let name = d.link.or(d.name).map_or_else(|| format!("Subroutine[{}][{}]", d.pos.0, d.pos.1), |n| crate::syms::displayed(&n).unwrap_or_default());
        out.push((name, size));
    };
    let hex = |s: &str| s.strip_prefix("0x").map_or_else(|| s.parse().ok(), |h| u64::from_str_radix(h, 16).ok());
    let quoted = |s: &str| -> Option<String> {
        let a = s.find("(\"")? + 2;
        let b = s.rfind("\")")?;
        Some(s[a..b].to_string())
    };
    let mut in_ranges = false;
    for l in t.lines() {
        if l.starts_with("0x") {
            let Some((_, rest)) = l.split_once(':') else { continue };
            let rest = rest.trim_start();
            if rest.contains("Unit: length") {
                unit += 1;
                entry = -2;
                flush(cur.take());
                continue;
            }
            flush(cur.take());
            in_ranges = false;
            if rest.starts_with("NULL") || !rest.starts_with("DW_TAG_") {
                continue;
            }
            entry += 1;
            cur = Some(D { sub: rest.trim() == "DW_TAG_subprogram", link: None, name: None, low: None, high: None, len: None, ranges: None, pos: (unit, entry) });
            continue;
        }
        let Some(d) = cur.as_mut() else { continue };
        let s = l.trim();
        if s.starts_with("DW_AT_") {
            in_ranges = false;
        }
        if s.starts_with("DW_AT_linkage_name\t") {
            d.link = quoted(s);
        } else if s.starts_with("DW_AT_name\t") {
            d.name = quoted(s);
        } else if s.starts_with("DW_AT_low_pc\t") || s.starts_with("DW_AT_high_pc\t") {
            let a = s.find('(')? + 1;
            let e = a + s[a..].find(')')?;
            let v = hex(s[a..e].split_whitespace().last()?);
            if s.starts_with("DW_AT_high_pc") && !s[a..e].contains("0x") {
                // a signed constant is shown as it is
                d.len = v;
            } else if s.starts_with("DW_AT_low_pc") {
                d.low = v;
            } else {
                d.high = v;
            }
        } else if s.starts_with("DW_AT_ranges\t") {
            in_ranges = true;
            d.ranges = Some(0);
        } else if in_ranges && s.starts_with('[') {
            let s = s.trim_end_matches(')').trim_start_matches('[');
            let (a, b) = s.split_once(", ")?;
            let b = b.split(')').next()?;
            *d.ranges.as_mut()? += hex(b)? - hex(a)?;
        }
    }
    flush(cur.take());
    Some(out)
}

fn real(c: &mut Ctx) {
    let mut v = vec![std::path::PathBuf::from("/repo/twiggy/tests/all/fixtures/hello_elf")];
    v.extend(std::fs::read_dir("/verif/target/samples").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "elf" || x == "exe" || x == "macho")).collect::<Vec<_>>()).unwrap_or_default());
    v.sort();
    for f in v {
        let Some(want) = dump(&f) else {
            c.count("real binaries that could not be dumped");
            continue;
        };
        c.count("real binaries");
        c.add("subprograms of real binaries", want.len() as u64);
        let b = std::fs::read(&f).unwrap();
        c.eval(&b);
        match read(c, &b, "real.bin", ParseMode::Auto) {
            Ok(it) => {
                if let Err(e) = judge(&want, &it, b.len()) {
                    c.fail(format!("{}: {}", f.display(), e));
                }
            }
            Err(e) => c.fail(format!("{} refused: {}", f.display(), e)),
        }
    }
}
