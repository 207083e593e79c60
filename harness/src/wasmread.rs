//! Independent reader of real (compiled) wasm modules: yields the same ground
//! truth that the generator knows by construction. Operator boundaries come
//! from its own decoding; anything it does not know is refused.
use crate::wasmgen::{tyname, Kind, Truth};
use std::collections::{BTreeMap, BTreeSet};

struct R<'a> {
    b: &'a [u8],
    i: usize,
}
type Res<T> = Result<T, String>;
impl<'a> R<'a> {
    fn u8(&mut self) -> Res<u8> {
        let x = *self.b.get(self.i).ok_or("end")?;
        self.i += 1;
        Ok(x)
    }
    fn u(&mut self) -> Res<u32> {
        let mut v = 0u64;
        for s in 0..5 {
            let x = self.u8()?;
            v |= u64::from(x & 0x7f) << (7 * s);
            if x & 0x80 == 0 {
                return Ok(v as u32);
            }
        }
        Err("leb".into())
    }
    fn s(&mut self) -> Res<i64> {
        let mut v = 0i128;
        for s in 0..10 {
            let x = self.u8()?;
            v |= i128::from(x & 0x7f) << (7 * s);
            if x & 0x80 == 0 {
                if x & 0x40 != 0 {
                    v -= 1 << (7 * (s + 1));
                }
                return Ok(v as i64);
            }
        }
        Err("leb".into())
    }
    fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        let e = self.i.checked_add(n).ok_or("len")?;
        let x = self.b.get(self.i..e).ok_or("end")?;
        self.i = e;
        Ok(x)
    }
    fn name(&mut self) -> Res<String> {
        let n = self.u()? as usize;
        Ok(std::str::from_utf8(self.take(n)?).map_err(|e| e.to_string())?.to_string())
    }
    fn limits(&mut self) -> Res<()> {
        let f = self.u8()?;
        self.s()?;
        if f & 1 != 0 {
            self.s()?;
        }
        Ok(())
    }
    fn eof(&self) -> bool {
        self.i >= self.b.len()
    }
}

enum Op {
    Call(u32),
    Global(u32),
    Const32(i32),
    Load(u32),
    Indirect,
    Other,
}
/// One operator.
fn op(r: &mut R) -> Res<Op> {
    let o = r.u8()?;
    Ok(match o {
        0x00 | 0x01 | 0x05 | 0x0b | 0x0f | 0x1a | 0x1b | 0x45..=0xc4 | 0xd1 => Op::Other,
        0x02..=0x04 => {
            r.s()?;
            Op::Other
        }
        0x0c | 0x0d | 0x20..=0x22 | 0x25 | 0x26 | 0x3f | 0x40 | 0xd0 => {
            r.u()?;
            Op::Other
        }
        0x0e => {
            let n = r.u()?;
            for _ in 0..=n {
                r.u()?;
            }
            Op::Other
        }
        0x10 | 0x12 | 0xd2 => Op::Call(r.u()?),
        0x11 | 0x13 => {
            r.u()?;
            r.u()?;
            Op::Indirect
        }
        0x1c => {
            let n = r.u()?;
            for _ in 0..n {
                r.u8()?;
            }
            Op::Other
        }
        0x23 | 0x24 => Op::Global(r.u()?),
        0x28..=0x35 => {
            r.u()?;
            Op::Load(r.u()?)
        }
        0x36..=0x3e => {
            r.u()?;
            r.u()?;
            Op::Other
        }
        0x41 => Op::Const32(r.s()? as i32),
        0x42 => {
            r.s()?;
            Op::Other
        }
        0x43 => {
            r.take(4)?;
            Op::Other
        }
        0x44 => {
            r.take(8)?;
            Op::Other
        }
        0xfc => {
            let n = match r.u()? {
                0..=7 => 0,
                8 | 10 | 12 | 14 => 2,
                9 | 11 | 13 | 15 | 16 | 17 => 1,
                x => return Err(format!("0xfc {}", x)),
            };
            for _ in 0..n {
                r.u()?;
            }
            Op::Other
        }
        0xfd => {
            match r.u()? {
                0..=11 | 92 | 93 => {
                    r.u()?;
                    r.u()?;
                }
                12 | 13 => {
                    r.take(16)?;
                }
                21..=34 => {
                    r.u8()?;
                }
                84..=91 => {
                    r.u()?;
                    r.u()?;
                    r.u8()?;
                }
                _ => {}
            }
            Op::Other
        }
        x => return Err(format!("operator 0x{:02x}", x)),
    })
}

pub fn read(bytes: &[u8]) -> Res<Truth> {
    let mut t = Truth::default();
    if bytes.get(..8) != Some(b"\0asm\x01\0\0\0") {
        return Err("not a wasm 1 module".into());
    }
    // sections
    let mut r = R { b: bytes, i: 8 };
    let mut secs: Vec<(u8, usize, usize, usize)> = vec![]; // id, start, payload, end
    while !r.eof() {
        let st = r.i;
        let id = r.u8()?;
        let n = r.u()? as usize;
        let p = r.i;
        r.take(n)?;
        secs.push((id, st, p, r.i));
    }
    let root = |t: &mut Truth, n: String, s: u32, k: Kind, w: &'static str| {
        let i = t.add(n, s, k, w);
        t.roots.insert(i);
        i
    };
    root(&mut t, "wasm magic bytes".into(), 8, Kind::Misc, "section header");
    // names first
    let (mut fn_names, mut data_names): (BTreeMap<u32, String>, BTreeMap<u32, String>) = Default::default();
    for &(id, _, p, e) in &secs {
        if id != 0 {
            continue;
        }
        let mut r = R { b: &bytes[..e], i: p };
        if r.name()? != "name" {
            continue;
        }
        while !r.eof() {
            let k = r.u8()?;
            let n = r.u()? as usize;
            let end = r.i + n;
            if k == 1 || k == 9 {
                let c = r.u()?;
                for _ in 0..c {
                    let i = r.u()?;
                    let n = r.name()?;
                    if k == 1 {
                        fn_names.insert(i, n);
                    } else {
                        data_names.insert(i, n);
                    }
                }
            }
            r.i = end;
        }
    }
    let (mut f, mut tb, mut me, mut gl): (Vec<usize>, Vec<usize>, Vec<usize>, Vec<usize>) = Default::default();
    let mut types: Vec<usize> = vec![];
    let mut ftypes: Vec<(u32, u32)> = vec![];
    let mut func_overhead: u32 = 0;
    let mut segs: Vec<(u64, u64, usize)> = vec![];
    let mut exports: Vec<(usize, u8, u32)> = vec![];
    let mut start: Option<(usize, u32)> = None;
    let mut elems: Vec<(usize, Option<u32>, Vec<u32>)> = vec![];
    let mut bodies: Vec<(usize, usize, usize)> = vec![];
    for &(id, st, p, e) in &secs {
        let mut r = R { b: &bytes[..e], i: p };
        let whole = (e - st) as u32;
        let mut sum = 0u32;
        let name = match id {
            0 => {
                let n = r.name()?;
                if n == "name" {
                    while !r.eof() {
                        let s0 = r.i;
                        let k = r.u8()?;
                        let len = r.u()? as usize;
                        r.take(len)?;
                        let l = ["module", "function", "local", "label", "type", "table", "memory", "global", "element", "data"];
                        let l = match l.get(k as usize) {
                            Some(&"module") => "module name".to_string(),
                            Some(x) => format!("{} names", x),
                            None => "unknown name".to_string(),
                        };
                        let sz = (r.i - s0) as u32;
                        sum += sz;
                        root(&mut t, format!("\"{}\" subsection", l), sz, Kind::Debug, "name subsection");
                    }
                } else {
                    sum = (e - r.i) as u32;
                    t.add(format!("custom section '{}'", n), sum, Kind::Misc, "custom section");
                }
                format!("custom section '{}'", n)
            }
            12 => "data count section".into(),
            8 => {
                let x = r.u()?;
                let h = root(&mut t, "start section headers".into(), whole, Kind::Misc, "section header");
                start = Some((h, x));
                continue;
            }
            _ => {
                let n = r.u()?;
                let mut nm = "";
                if n == 0 {
                    nm = ["", "type", "import", "function", "table", "memory", "global", "export", "", "element", "code", "data"][id as usize];
                }
                for i in 0..n {
                    let s0 = r.i;
                    match id {
                        1 => {
                            nm = "type";
                            if r.u8()? != 0x60 {
                                return Err("type form".into());
                            }
                            let l = |r: &mut R| -> Res<Vec<&'static str>> {
                                let n = r.u()?;
                                (0..n).map(|_| Ok(tyname(r.u8()?))).collect()
                            };
                            let a = l(&mut r)?;
                            let b = l(&mut r)?;
                            let b = match b.len() {
                                0 => "nil".to_string(),
                                1 => b[0].to_string(),
                                _ => format!("({})", b.join(", ")),
                            };
                            types.push(t.add(format!("type[{}]: ({}) -> {}", i, a.join(", "), b), (r.i - s0) as u32, Kind::Misc, "type"));
                        }
                        2 => {
                            nm = "import";
                            let a = r.name()?;
                            let b = r.name()?;
                            let k = r.u8()?;
                            match k {
                                0 => {
                                    r.u()?;
                                }
                                1 => {
                                    r.u8()?;
                                    r.limits()?;
                                }
                                2 => r.limits()?,
                                3 => {
                                    r.take(2)?;
                                }
                                _ => return Err("import kind".into()),
                            }
                            let x = t.add(format!("import {}::{}", a, b), (r.i - s0) as u32, Kind::Misc, "import");
                            match k {
                                0 => f.push(x),
                                1 => tb.push(x),
                                2 => me.push(x),
                                _ => gl.push(x),
                            }
                        }
                        3 => {
                            nm = "function";
                            let ty = r.u()?;
                            ftypes.push((ty, (r.i - s0) as u32));
                        }
                        4 => {
                            nm = "table";
                            r.u8()?;
                            r.limits()?;
                            tb.push(root(&mut t, format!("table[{}]", i), (r.i - s0) as u32, Kind::Misc, "table"));
                        }
                        5 => {
                            nm = "memory";
                            r.limits()?;
                            me.push(t.add(format!("memory[{}]", i), (r.i - s0) as u32, Kind::Misc, "memory"));
                        }
                        6 => {
                            nm = "global";
                            r.take(2)?;
                            while !matches!(r.b.get(r.i), Some(0x0b)) {
                                op(&mut r)?;
                            }
                            r.u8()?;
                            gl.push(t.add(format!("global[{}]", i), (r.i - s0) as u32, Kind::Data, "global"));
                        }
                        7 => {
                            nm = "export";
                            let a = r.name()?;
                            let k = r.u8()?;
                            let x = r.u()?;
                            let id = root(&mut t, format!("export \"{}\"", a), (r.i - s0) as u32, Kind::Misc, "export");
                            exports.push((id, k, x));
                        }
                        9 => {
                            nm = "element";
                            if r.u()? != 0 {
                                return Err("element flags".into());
                            }
                            while !matches!(r.b.get(r.i), Some(0x0b)) {
                                op(&mut r)?;
                            }
                            r.u8()?;
                            let c = r.u()?;
                            let v = (0..c).map(|_| r.u()).collect::<Res<Vec<_>>>()?;
                            let id = t.add(format!("elem[{}]", i), (r.i - s0) as u32, Kind::Misc, "element");
                            elems.push((id, Some(0), v));
                        }
                        10 => {
                            nm = "code";
                            let l = r.u()? as usize;
                            let b0 = r.i;
                            r.take(l)?;
                            let &(_, fsz) = ftypes.get(i as usize).ok_or("function count")?;
                            let fi = f.len() as u32;
                            let nmx = fn_names.get(&fi).cloned();
                            let nmx = match nmx {
                                Some(n) => twiggy_ir::Code::new(&n).demangled().map(|s| s.to_string()).unwrap_or(n),
                                None => format!("code[{}]", i),
                            };
                            let id = t.add(nmx, (r.i - s0) as u32 + fsz, Kind::Code, "function");
                            f.push(id);
                            bodies.push((id, b0, r.i));
                        }
                        11 => {
                            nm = "data";
                            let fl = r.u()?;
                            let mut off = None;
                            if fl == 2 {
                                r.u()?;
                            }
                            if fl != 1 {
                                if let Op::Const32(v) = op(&mut r)? {
                                    off = Some(u64::from(v as u32));
                                }
                                if r.u8()? != 0x0b {
                                    return Err("offset".into());
                                }
                            }
                            let l = r.u()? as usize;
                            r.take(l)?;
                            let nmx = data_names.get(&i).map_or_else(|| format!("data[{}]", i), |n| format!("data segment \"{}\"", n));
                            let id = t.add(nmx, (r.i - s0) as u32, Kind::Data, "data");
                            if let Some(o) = off {
                                segs.push((o, l as u64, id));
                            }
                        }
                        _ => return Err(format!("section {}", id)),
                    }
                    if id != 3 && id != 10 {
                        sum += (r.i - s0) as u32;
                    }
                }
                if r.i != e {
                    return Err(format!("section {} has extra bytes", id));
                }
                format!("{} section", nm)
            }
        };
        match id {
            3 => {
                func_overhead = whole - ftypes.iter().map(|x| x.1).sum::<u32>();
            }
            10 => {
                let b: u32 = bodies.iter().map(|x| t.items[x.0].size).sum::<u32>() - ftypes.iter().map(|x| x.1).sum::<u32>();
                root(&mut t, "code section headers".into(), whole - b + func_overhead, Kind::Misc, "section header");
            }
            _ => {
                root(&mut t, format!("{} headers", name), whole - sum, Kind::Misc, "section header");
            }
        }
    }
    if ftypes.len() != bodies.len() {
        return Err("function and code count".into());
    }
    // references
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    let at = |v: &Vec<usize>, i: u32| v.get(i as usize).copied().ok_or("index");
    for (i, &(me_, b0, b1)) in bodies.iter().enumerate() {
        edges.insert((me_, at(&types, ftypes[i].0)?));
        let mut r = R { b: &bytes[..b1], i: b0 };
        for _ in 0..r.u()? {
            r.u()?;
            r.u8()?;
        }
        let mut prev: Option<i32> = None;
        while !r.eof() {
            let o = op(&mut r)?;
            let mut now = None;
            match o {
                Op::Call(x) => {
                    edges.insert((me_, at(&f, x)?));
                }
                Op::Global(x) => {
                    edges.insert((me_, at(&gl, x)?));
                }
                Op::Const32(v) => now = Some(v),
                Op::Load(off) => {
                    if let Some(v) = prev {
                        let a = u64::from(v as u32) + u64::from(off);
                        if let Some(x) = segs.iter().filter(|x| x.1 > 0 && x.0 >= a).min_by_key(|x| x.0) {
                            t.next_seg.insert((me_, x.2));
                        }
                        for &(o, l, id) in &segs {
                            if a >= o && a < o + l {
                                edges.insert((me_, id));
                            }
                        }
                    }
                }
                Op::Indirect | Op::Other => {}
            }
            prev = now;
        }
    }
    for (id, k, x) in exports {
        let v = match k {
            0 => &f,
            1 => &tb,
            2 => &me,
            3 => &gl,
            _ => continue,
        };
        edges.insert((id, at(v, x)?));
    }
    if let Some((h, x)) = start {
        edges.insert((h, at(&f, x)?));
    }
    for (id, tab, v) in elems {
        if let Some(tab) = tab {
            edges.insert((at(&tb, tab)?, id));
        }
        for x in v {
            edges.insert((id, at(&f, x)?));
        }
    }
    t.edges = edges;
    Ok(t)
}
