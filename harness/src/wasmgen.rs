//! Random valid WebAssembly modules together with the items, references and
//! roots a correct reader must report, known by construction.
use crate::names;
use crate::rng::Rng;
use std::collections::{BTreeSet, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Code,
    Data,
    Debug,
    Misc,
}

#[derive(Clone, Debug)]
pub struct TItem {
    pub name: String,
    pub size: u32,
    pub kind: Kind,
    /// What the entity is (for coverage counts).
    pub what: &'static str,
}

#[derive(Clone, Debug, Default)]
pub struct Truth {
    pub items: Vec<TItem>,
    pub edges: BTreeSet<(usize, usize)>,
    /// For the recorded finding on data lookups: per constant-address load, the
    /// function and the first non-empty active segment that begins at or after
    /// the address.
    pub next_seg: BTreeSet<(usize, usize)>,
    pub roots: BTreeSet<usize>,
}
impl Truth {
    /// The references twiggy reports given the recorded finding.
    pub fn edges_with_finding(&self) -> BTreeSet<(usize, usize)> {
        let mut e: BTreeSet<_> = self.edges.iter().copied().filter(|&(a, b)| !(self.items[a].kind == Kind::Code && self.items[b].what.starts_with("data"))).collect();
        e.extend(&self.next_seg);
        e
    }
    pub fn add(&mut self, name: String, size: u32, kind: Kind, what: &'static str) -> usize {
        self.items.push(TItem { name, size, kind, what });
        self.items.len() - 1
    }
    pub fn total(&self) -> u64 {
        self.items.iter().map(|i| u64::from(i.size)).sum()
    }
}

#[derive(Clone, Debug)]
pub struct Module {
    pub bytes: Vec<u8>,
    pub truth: Truth,
    /// Raw function names by truth index (for demangling checks).
    pub features: BTreeSet<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_funcs: usize,
    pub max_other: usize,
    pub stmts: usize,
    /// Percentage of integers with over-long encodings.
    pub pad: u32,
    pub hostile_names: bool,
    /// How function names are made: 0 plain unique, 1 symbol pool, 2 mixed
    pub name_style: u32,
    /// Function names given by the caller (used round robin if not empty).
    pub fn_names: Vec<String>,
    pub customs: bool,
    pub names: bool,
    pub exact_funcs: Option<usize>,
    /// what `big` makes many is more than sixteen bits can count
    pub scale: bool,
    /// Constructs of withdrawn proposals that the reader still accepts.
    pub odd: bool,
    /// One dimension taken far beyond the ordinary (0: none).
    pub big: u8,
}



impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { max_funcs: 12, max_other: 5, stmts: 6, pad: 10, hostile_names: false, name_style: 0, fn_names: vec![], customs: true, names: true, exact_funcs: None, odd: false, big: 0, scale: false }
    }
}

const I32: u8 = 0x7f;
const I64: u8 = 0x7e;
const F32: u8 = 0x7d;
const F64: u8 = 0x7c;
const V128: u8 = 0x7b;
const FUNCREF: u8 = 0x70;
const EXTERNREF: u8 = 0x6f;

/// How the header of the section of exception tags is labelled.
const TAGS: &str = "TagSection(\"...\")";

pub fn tyname(t: u8) -> &'static str {
    match t {
        I32 => "i32",
        I64 => "i64",
        F32 => "f32",
        F64 => "f64",
        V128 => "v128",
        FUNCREF => "funcref",
        EXTERNREF => "externref",
        _ => "?",
    }
}

pub struct G<'r> {
    pub r: &'r mut Rng,
    pad: u32,
}
impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, pad: u32) -> G<'r> {
        G { r, pad }
    }
    pub fn u(&mut self, o: &mut Vec<u8>, mut v: u32) {
        let start = o.len();
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                o.push(b);
                break;
            }
            o.push(b | 0x80);
        }
        if self.r.chance(self.pad, 100) {
            let extra = self.r.below(5 - (o.len() - start) + 1);
            if extra > 0 {
                let l = o.len();
                o[l - 1] |= 0x80;
                for k in 0..extra {
                    o.push(if k + 1 == extra { 0 } else { 0x80 });
                }
            }
        }
    }
    fn s(&mut self, o: &mut Vec<u8>, mut v: i64, max: usize) {
        let start = o.len();
        let neg = v < 0;
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
                o.push(b);
                break;
            }
            o.push(b | 0x80);
        }
        if self.r.chance(self.pad, 100) {
            let have = o.len() - start;
            let extra = self.r.below(max - have + 1);
            if extra > 0 {
                let l = o.len();
                o[l - 1] |= 0x80;
                let f = if neg { 0x7f } else { 0 };
                for k in 0..extra {
                    o.push(if k + 1 == extra { f } else { f | 0x80 });
                }
            }
        }
    }
    pub fn s32(&mut self, o: &mut Vec<u8>, v: i32) {
        self.s(o, i64::from(v), 5)
    }
    pub fn s64(&mut self, o: &mut Vec<u8>, v: i64) {
        self.s(o, v, 10)
    }
    pub fn name(&mut self, o: &mut Vec<u8>, s: &str) {
        self.u(o, s.len() as u32);
        o.extend_from_slice(s.as_bytes());
    }
    fn konst(&mut self, o: &mut Vec<u8>, t: u8) {
        match t {
            I32 => {
                o.push(0x41);
                let v = self.r.u32() as i32 >> self.r.below(32);
                self.s32(o, v);
            }
            I64 => {
                o.push(0x42);
                let v = self.r.u64() as i64 >> self.r.below(64);
                self.s64(o, v);
            }
            F32 => {
                o.push(0x43);
                o.extend_from_slice(&self.r.u32().to_le_bytes());
            }
            F64 => {
                o.push(0x44);
                o.extend_from_slice(&self.r.u64().to_le_bytes());
            }
            V128 => {
                o.extend_from_slice(&[0xfd, 0x0c]);
                o.extend_from_slice(&self.r.u64().to_le_bytes());
                o.extend_from_slice(&self.r.u64().to_le_bytes());
            }
            t => {
                o.extend_from_slice(&[0xd0, t]);
            }
        }
    }
}

#[derive(Clone)]
struct FTy {
    params: Vec<u8>,
    rets: Vec<u8>,
}

/// The identity a function, table, ... has in the truth.
pub fn gen(r: &mut Rng, cfg: &Cfg) -> Module {
    let mut feats: BTreeSet<&'static str> = BTreeSet::new();
    let mut truth = Truth::default();
    let mut used: HashSet<String> = HashSet::new();
    let pad = if cfg.pad > 0 && r.chance(1, 2) { cfg.pad + r.below(60) as u32 } else { 0 };
    if pad > 0 {
        feats.insert("overlong-leb");
    }
    let mut g = G::new(r, pad);

    // ---- plan -----------------------------------------------------------
    let many = |g: &mut G, k: u8, n: usize| if cfg.big != k { n } else if cfg.scale { g.r.range(80_000, 140_000) } else { g.r.range(200, 1600) };
    if cfg.scale {
        feats.insert("beyond 65536");
    }
    if cfg.big > 0 {
        feats.insert(["", "big-data", "big-custom", "big-body", "big-element-list", "many-types", "many-imports", "many-tables", "many-globals", "many-exports", "long-name", "many-functions", "many-segments"][cfg.big as usize]);
    }
    let nt = g.r.range(1, cfg.max_other.max(1) + 1);
    let nt = many(&mut g, 5, nt);
    let vals = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF];
    let mut types: Vec<FTy> = (0..nt)
        .map(|_| {
            let np = g.r.below(4);
            let nr = *g.r.pick(&[0, 0, 1, 1, 2, 3]);
            FTy { params: (0..np).map(|_| *g.r.pick(&vals)).collect(), rets: (0..nr).map(|_| *g.r.pick(&vals)).collect() }
        })
        .collect();
    types.push(FTy { params: vec![], rets: vec![] });
    let void_ty = types.len() - 1;
    if types.iter().any(|t| t.rets.len() > 1) {
        feats.insert("multi-value");
    }

    #[derive(Clone, Copy, PartialEq)]
    enum Imp {
        F(usize),
        T(u8),
        M,
        G(u8, bool),
        /// An exception tag of that type.
        Tag(usize),
    }
    let with_tags = g.r.chance(1, 5);
    let tag_tys: Vec<usize> = (0..types.len()).filter(|&t| types[t].rets.is_empty()).collect();
    let nimp = g.r.skewed(cfg.max_other * 2);
    let nimp = many(&mut g, 6, nimp);
    let mut imports: Vec<Imp> = vec![];
    let mut have_mem = false;
    for _ in 0..nimp {
        imports.push(match g.r.below(8) {
            0 | 1 | 2 => Imp::F(g.r.below(types.len())),
            3 => Imp::T(if g.r.chance(3, 4) { FUNCREF } else { EXTERNREF }),
            4 if !have_mem => {
                have_mem = true;
                Imp::M
            }
            5 if with_tags => Imp::Tag(*g.r.pick(&tag_tys)),
            _ => Imp::G(*g.r.pick(&[I32, I64, F32, F64, FUNCREF, EXTERNREF]), g.r.bool()),
        });
    }
    let nf = cfg.exact_funcs.unwrap_or_else(|| g.r.skewed(cfg.max_funcs)).max(if cfg.big == 3 { 2 } else { 0 });
    let nf = if cfg.big == 11 && cfg.scale { g.r.range(80_000, 140_000) } else if cfg.big == 11 { let most = if g.r.chance(1, 6) { 9000 } else { 2600 }; g.r.range(300, most) } else { nf };
    let nf = if cfg.big == 4 && g.r.bool() { g.r.range(200, 3000) } else { nf };
    let ftys: Vec<usize> = (0..nf).map(|_| g.r.below(types.len())).collect();
    let ntab = g.r.skewed(cfg.max_other.min(3));
    let ntab = many(&mut g, 7, ntab);
    let tabs: Vec<u8> = (0..ntab).map(|_| if g.r.chance(4, 5) { FUNCREF } else { EXTERNREF }).collect();
    let nmem = if have_mem { 0 } else { g.r.range(0, 1) };
    let mem64 = nmem == 1 && g.r.chance(1, 12);
    let has_mem = have_mem || nmem > 0;
    let nglob = g.r.skewed(cfg.max_other);
    let nglob = many(&mut g, 8, nglob);
    let globs: Vec<(u8, bool)> = (0..nglob).map(|_| (*g.r.pick(&vals), g.r.bool())).collect();

    // index spaces: filled with truth indices
    let (mut fidx, mut tidx, mut midx, mut gidx) = (vec![], vec![], vec![], vec![]);
    let mut fty: Vec<usize> = vec![];
    let mut tty: Vec<u8> = vec![];
    let mut gty: Vec<(u8, bool)> = vec![];
    let mut n_imp_f = 0usize;
    let mut tags: Vec<usize> = vec![];
    for i in &imports {
        match i {
            Imp::F(t) => {
                fty.push(*t);
                n_imp_f += 1;
            }
            Imp::T(t) => tty.push(*t),
            Imp::M => {}
            Imp::G(t, m) => gty.push((*t, *m)),
            Imp::Tag(t) => tags.push(*t),
        }
    }
    let own_tags: Vec<usize> = if with_tags { (0..g.r.skewed(4)).map(|_| *g.r.pick(&tag_tys)).collect() } else { vec![] };
    tags.extend(&own_tags);
    let n_imp_g = gty.len();
    fty.extend(&ftys);
    tty.extend(&tabs);
    gty.extend(&globs);

    let uniq = |used: &mut HashSet<String>, s: String| -> String {
        if used.insert(s.clone()) {
            return s;
        }
        let mut k = 0;
        loop {
            let t = format!("{}#{}", s, k);
            if used.insert(t.clone()) {
                return t;
            }
            k += 1;
        }
    };
    let free_name = |r: &mut Rng, cfg: &Cfg| -> String {
        if cfg.big == 10 && r.chance(1, 3) {
            // up to the length the reader takes
            format!("L{}{}", r.u32(), "long ".repeat(r.range(13_100, 19_900)))
        } else if cfg.hostile_names && r.chance(1, 2) {
            names::hostile(r, 12)
        } else if r.chance(1, 4) {
            names::text(r, 14)
        } else {
            names::plain(r)
        }
    };

    // ---- names ----------------------------------------------------------
    // names of functions by function index (imports too: those are ignored)
    let with_names = cfg.names && g.r.chance(3, 4);
    let mut fnames: Vec<Option<String>> = vec![None; fty.len()];
    let full = g.r.chance(1, 2);
    if with_names {
        for (i, n) in fnames.iter_mut().enumerate() {
            if full || g.r.chance(1, 2) {
                let s = if !cfg.fn_names.is_empty() && i >= n_imp_f {
                    cfg.fn_names[(i - n_imp_f) % cfg.fn_names.len()].clone()
                } else {
                    let s = free_name(g.r, cfg);
                    let s = uniq(&mut used, s);
                    // keep clear of anything a demangler might take
                    if s.starts_with('_') || s.contains("__R") || s.starts_with('R') || s.starts_with('Z') {
                        format!("f{}", s)
                    } else {
                        s
                    }
                };
                *n = Some(s);
            }
        }
        feats.insert("function-names");
    }

    // ---- section builders ------------------------------------------------
    // Each produces (id, payload, entries) where entries = truth indices with
    // payload sizes already fixed; header gets the rest.
    struct Sec {
        bytes: Vec<u8>,
    }
    let mut secs: Vec<Sec> = vec![];
    let hdr_item = |truth: &mut Truth, name: String, whole: usize, entries: u32| {
        let h = truth.add(name, whole as u32 - entries, Kind::Misc, "section header");
        truth.roots.insert(h);
        h
    };
    let frame = |g: &mut G, id: u8, payload: &[u8]| -> Vec<u8> {
        let mut o = vec![id];
        g.u(&mut o, payload.len() as u32);
        o.extend_from_slice(payload);
        o
    };
    let v = truth.add("wasm magic bytes".into(), 8, Kind::Misc, "section header");
    truth.roots.insert(v);
    secs.push(Sec { bytes: b"\0asm\x01\0\0\0".to_vec() });

    let mut custom_no = 0usize;
    let mut custom = |g: &mut G, truth: &mut Truth, secs: &mut Vec<Sec>, feats: &mut BTreeSet<&'static str>, cfg: &Cfg| {
        let big = cfg.big == 2 && custom_no == 0;
        if !big && (!cfg.customs || !g.r.chance(1, 8)) {
            return;
        }
        let name = match g.r.below(6) {
            0 => String::new(),
            1 => ".debug_info".to_string(),
            2 => "producers".to_string(),
            3 => "linking".to_string(),
            4 => format!("name{}", custom_no),
            _ => names::text(g.r, 10),
        };
        let name = if name == "name" { "nam".into() } else { format!("{}{}", name, if g.r.chance(1, 8) { String::new() } else { format!("~{}", custom_no) }) };
        custom_no += 1;
        let mut p = vec![];
        g.name(&mut p, &name);
        let n = *g.r.pick(&[0usize, 1, 5, 40, 300]);
        let n = if big { g.r.range(65_000, 200_000) } else { g.r.range(0, n) };
        for _ in 0..n {
            p.push(g.r.u32() as u8);
        }
        let b = frame(g, 0, &p);
        truth.add(format!("custom section '{}'", name), n as u32, Kind::Misc, "custom section");
        let h = truth.add(format!("custom section '{}' headers", name), (b.len() - n) as u32, Kind::Misc, "section header");
        truth.roots.insert(h);
        secs.push(Sec { bytes: b });
        feats.insert("custom");
        if big && cfg.scale {
            for i in 0..66_000 {
                let name = format!("~~{}", i);
                let mut p = vec![name.len() as u8];
                p.extend(name.bytes());
                let n = i % 3;
                p.extend(vec![0; n]);
                let mut b = vec![0, p.len() as u8];
                b.extend(&p);
                truth.add(format!("custom section '{}'", name), n as u32, Kind::Misc, "custom section");
                let h = truth.add(format!("custom section '{}' headers", name), (b.len() - n) as u32, Kind::Misc, "section header");
                truth.roots.insert(h);
                secs.push(Sec { bytes: b });
            }
        }
    };

    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    // type section
    let mut tid: Vec<usize> = vec![];
    {
        let mut p = vec![];
        g.u(&mut p, types.len() as u32);
        let mut sum = 0;
        for (i, t) in types.iter().enumerate() {
            let st = p.len();
            p.push(0x60);
            g.u(&mut p, t.params.len() as u32);
            p.extend(&t.params);
            g.u(&mut p, t.rets.len() as u32);
            p.extend(&t.rets);
            let ps = t.params.iter().map(|&t| tyname(t)).collect::<Vec<_>>().join(", ");
            let rs = t.rets.iter().map(|&t| tyname(t)).collect::<Vec<_>>();
            let rs = match rs.len() {
                0 => "nil".to_string(),
                1 => rs[0].to_string(),
                _ => format!("({})", rs.join(", ")),
            };
            let sz = (p.len() - st) as u32;
            sum += sz;
            tid.push(truth.add(format!("type[{}]: ({}) -> {}", i, ps, rs), sz, Kind::Misc, "type"));
        }
        let b = frame(&mut g, 1, &p);
        hdr_item(&mut truth, "type section headers".into(), b.len(), sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    let limits = |g: &mut G, p: &mut Vec<u8>| {
        if g.r.bool() {
            p.push(0);
            let x = g.r.u32() % 1000;
            g.u(p, x);
        } else {
            p.push(1);
            let x = g.r.u32() % 1000;
            g.u(p, x);
            let y = x + g.r.u32() % 1000;
            g.u(p, y);
        }
    };
    // import section
    if !imports.is_empty() || g.r.chance(1, 6) {
        let mut p = vec![];
        g.u(&mut p, imports.len() as u32);
        let mut sum = 0;
        for imp in &imports {
            let st = p.len();
            let (m, f) = (free_name(g.r, cfg), free_name(g.r, cfg));
            let label = uniq(&mut used, format!("import {}::{}", m, f));
            // uniq may have appended a suffix: put it in the field name
            let f = label[format!("import {}::", m).len()..].to_string();
            g.name(&mut p, &m);
            if cfg.odd && g.r.chance(1, 6) {
                // an import of one level
                p.extend([0, 0xff]);
            } else {
                g.name(&mut p, &f);
            }
            match imp {
                Imp::F(t) => {
                    p.push(0);
                    g.u(&mut p, *t as u32);
                }
                Imp::T(t) => {
                    p.push(1);
                    p.push(*t);
                    limits(&mut g, &mut p);
                }
                Imp::M => {
                    p.push(2);
                    limits(&mut g, &mut p);
                }
                Imp::G(t, m) => {
                    p.push(3);
                    p.push(*t);
                    p.push(*m as u8);
                }
                Imp::Tag(t) => {
                    p.extend([4, 0]);
                    g.u(&mut p, *t as u32);
                }
            }
            let sz = (p.len() - st) as u32;
            sum += sz;
            let id = truth.add(label, sz, Kind::Misc, "import");
            match imp {
                Imp::F(_) => fidx.push(id),
                Imp::T(_) => tidx.push(id),
                Imp::M => midx.push(id),
                Imp::G(..) => gidx.push(id),
                Imp::Tag(_) => {}
            }
            feats.insert(match imp {
                Imp::F(_) => "import-func",
                Imp::T(_) => "import-table",
                Imp::M => "import-memory",
                Imp::G(..) => "import-global",
                Imp::Tag(_) => "import-tag",
            });
        }
        let b = frame(&mut g, 2, &p);
        hdr_item(&mut truth, "import section headers".into(), b.len(), sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    // function section: remembered for the code items
    let mut decl_sizes = vec![];
    let func_sec_len;
    {
        let mut p = vec![];
        g.u(&mut p, nf as u32);
        for t in &ftys {
            let st = p.len();
            g.u(&mut p, *t as u32);
            decl_sizes.push(p.len() - st);
        }
        let b = frame(&mut g, 3, &p);
        func_sec_len = b.len();
        secs.push(Sec { bytes: b });
    }
    // code items exist from here on, sizes patched later
    for i in 0..nf {
        let nm = match &fnames[n_imp_f + i] {
            Some(n) => n.clone(),
            None => format!("code[{}]", i),
        };
        fidx.push(truth.add(nm, 0, Kind::Code, "function"));
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    if ntab > 0 || g.r.chance(1, 8) {
        let mut p = vec![];
        g.u(&mut p, ntab as u32);
        let mut sum = 0;
        for (i, t) in tabs.iter().enumerate() {
            let st = p.len();
            p.push(*t);
            limits(&mut g, &mut p);
            let sz = (p.len() - st) as u32;
            sum += sz;
            let id = truth.add(format!("table[{}]", i), sz, Kind::Misc, "table");
            truth.roots.insert(id);
            tidx.push(id);
        }
        let b = frame(&mut g, 4, &p);
        hdr_item(&mut truth, "table section headers".into(), b.len(), sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    if nmem > 0 || g.r.chance(1, 8) {
        let mut p = vec![];
        g.u(&mut p, nmem as u32);
        let mut sum = 0;
        for i in 0..nmem {
            let st = p.len();
            if mem64 {
                p.push(4);
                let x = g.r.u32() % 100;
                g.u(&mut p, x);
                feats.insert("memory64");
            } else if g.r.chance(1, 8) {
                p.push(3);
                g.u(&mut p, 1);
                g.u(&mut p, 70);
                feats.insert("shared-memory");
            } else {
                limits(&mut g, &mut p);
            }
            let sz = (p.len() - st) as u32;
            sum += sz;
            midx.push(truth.add(format!("memory[{}]", i), sz, Kind::Misc, "memory"));
        }
        let b = frame(&mut g, 5, &p);
        hdr_item(&mut truth, "memory section headers".into(), b.len(), sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    if !own_tags.is_empty() || (with_tags && g.r.chance(1, 8)) {
        let mut p = vec![];
        g.u(&mut p, own_tags.len() as u32);
        for t in &own_tags {
            p.push(0);
            g.u(&mut p, *t as u32);
        }
        let b = frame(&mut g, 13, &p);
        hdr_item(&mut truth, TAGS.into(), b.len(), 0);
        secs.push(Sec { bytes: b });
        feats.insert("tag-section");
        custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    }
    if nglob > 0 || g.r.chance(1, 8) {
        let mut p = vec![];
        g.u(&mut p, nglob as u32);
        let mut sum = 0;
        for (i, (t, m)) in globs.iter().enumerate() {
            let st = p.len();
            p.push(*t);
            p.push(*m as u8);
            let same: Vec<usize> = (0..n_imp_g).filter(|&k| gty[k] == (*t, false)).collect();
            if !same.is_empty() && g.r.chance(1, 2) {
                p.push(0x23);
                let k = *g.r.pick(&same);
                g.u(&mut p, k as u32);
            } else {
                g.konst(&mut p, *t);
            }
            p.push(0x0b);
            let sz = (p.len() - st) as u32;
            sum += sz;
            gidx.push(truth.add(format!("global[{}]", i), sz, Kind::Data, "global"));
        }
        let b = frame(&mut g, 6, &p);
        hdr_item(&mut truth, "global section headers".into(), b.len(), sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    // exports
    let nexp = g.r.skewed(cfg.max_other * 2);
    let nexp = many(&mut g, 9, nexp);
    if nexp > 0 || g.r.chance(1, 8) {
        let mut ents: Vec<(String, u8, u32, usize)> = vec![];
        for _ in 0..nexp {
            if !tags.is_empty() && g.r.chance(1, 5) {
                let i = g.r.below(tags.len());
                let n = free_name(g.r, cfg);
                let label = uniq(&mut used, format!("export {}", n));
                ents.push((label["export ".len()..].to_string(), 4, i as u32, 0));
                continue;
            }
            let k = g.r.below(4);
            let sp: &Vec<usize> = [&fidx, &tidx, &midx, &gidx][k];
            if sp.is_empty() {
                continue;
            }
            let i = g.r.below(sp.len());
            let n = free_name(g.r, cfg);
            let label = uniq(&mut used, format!("export {}", n));
            ents.push((label["export ".len()..].to_string(), k as u8, i as u32, sp[i]));
        }
        let mut p = vec![];
        g.u(&mut p, ents.len() as u32);
        let mut sum = 0;
        for (n, k, i, target) in &ents {
            let st = p.len();
            g.name(&mut p, n);
            p.push(*k);
            g.u(&mut p, *i);
            let sz = (p.len() - st) as u32;
            sum += sz;
            let id = truth.add(format!("export \"{}\"", n), sz, Kind::Misc, "export");
            truth.roots.insert(id);
            if *k < 4 {
                truth.edges.insert((id, *target));
            }
            feats.insert(["export-func", "export-table", "export-memory", "export-global", "export-tag"][*k as usize]);
        }
        let b = frame(&mut g, 7, &p);
        hdr_item(&mut truth, "export section headers".into(), b.len(), sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    // start
    let starts: Vec<usize> = (0..fty.len()).filter(|&i| types[fty[i]].params.is_empty() && types[fty[i]].rets.is_empty()).collect();
    if !starts.is_empty() && g.r.chance(1, 3) {
        let f = *g.r.pick(&starts);
        let mut p = vec![];
        g.u(&mut p, f as u32);
        let b = frame(&mut g, 8, &p);
        let h = hdr_item(&mut truth, "start section headers".into(), b.len(), 0);
        truth.edges.insert((h, fidx[f]));
        feats.insert("start");
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    // elements
    let ftabs: Vec<usize> = (0..tty.len()).filter(|&i| tty[i] == FUNCREF).collect();
    let nelem = g.r.skewed(cfg.max_other).max(usize::from(cfg.big == 4));
    let nelem = many(&mut g, 12, nelem);
    let mut n_elems = 0;
    if nelem > 0 || g.r.chance(1, 8) {
        let mut segs: Vec<u32> = vec![];
        for _ in 0..nelem {
            let f = g.r.below(8) as u32;
            let active = f & 1 == 0;
            if active && (ftabs.is_empty() || (f & 2 == 0 && tty.first() != Some(&FUNCREF))) {
                continue;
            }
            segs.push(f);
        }
        n_elems = segs.len();
        let mut p = vec![];
        g.u(&mut p, segs.len() as u32);
        let mut sum = 0;
        for (i, f) in segs.iter().enumerate() {
            let st = p.len();
            let id = truth.add(format!("elem[{}]", i), 0, Kind::Misc, "element segment");
            g.u(&mut p, *f);
            if f & 1 == 0 {
                let t = if f & 2 != 0 {
                    let t = *g.r.pick(&ftabs);
                    g.u(&mut p, t as u32);
                    t
                } else {
                    0
                };
                truth.edges.insert((tidx[t], id));
                if t > 0 {
                    feats.insert("elem-nonzero-table");
                }
                let ig: Vec<usize> = (0..n_imp_g).filter(|&k| gty[k] == (I32, false)).collect();
                if !ig.is_empty() && g.r.bool() {
                    p.push(0x23);
                    let k = *g.r.pick(&ig);
                    g.u(&mut p, k as u32);
                } else {
                    p.push(0x41);
                    let o = g.r.below(100) as i32;
                    g.s32(&mut p, o);
                }
                p.push(0x0b);
            }
            let exprs = f & 4 != 0;
            if f & 3 != 0 {
                p.push(if exprs { FUNCREF } else { 0 });
            }
            let n = if fidx.is_empty() { 0 } else if cfg.big == 4 && g.r.chance(2, 3) { g.r.range(200, 40_000) } else { g.r.skewed(9) };
            g.u(&mut p, n as u32);
            for _ in 0..n {
                let k = g.r.below(fidx.len());
                if exprs {
                    if g.r.chance(1, 4) {
                        p.extend_from_slice(&[0xd0, FUNCREF, 0x0b]);
                        continue;
                    }
                    p.push(0xd2);
                    g.u(&mut p, k as u32);
                    p.push(0x0b);
                } else {
                    g.u(&mut p, k as u32);
                }
                truth.edges.insert((id, fidx[k]));
            }
            let sz = (p.len() - st) as u32;
            truth.items[id].size = sz;
            sum += sz;
            feats.insert(["elem0", "elem1-passive", "elem2", "elem3-declared", "elem4", "elem5-passive-expr", "elem6", "elem7-declared-expr"][*f as usize]);
        }
        let b = frame(&mut g, 9, &p);
        hdr_item(&mut truth, "element section headers".into(), b.len(), sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    // data plan: active segments at non-overlapping places
    struct Seg {
        flag: u32,
        off: Option<u64>,
        len: usize,
        via_global: Option<usize>,
        id: usize,
    }
    let ig: Vec<usize> = (0..n_imp_g).filter(|&k| gty[k] == (if mem64 { I64 } else { I32 }, false)).collect();
    let mut data: Vec<Seg> = vec![];
    let ndata = g.r.skewed(cfg.max_other + 2).max(usize::from(cfg.big == 1));
    let ndata = many(&mut g, 12, ndata);
    let has_data_sec = ndata > 0 || g.r.chance(1, 8);
    let mut at: u64 = *g.r.pick(&[0u64, 1, 8, 1024, 65_536, 0x7fff_fff0, 0x8000_0000, 0xffff_ff00]);
    for _ in 0..ndata {
        let flag = *g.r.pick(&[0u32, 0, 0, 1, 2]);
        let len = *g.r.pick(&[0usize, 1, 4, 7, 64, 200]);
        let len = if cfg.big == 1 && g.r.chance(1, 2) { g.r.range(60_000, 300_000) } else { len };
        let mut s = Seg { flag, off: None, len, via_global: None, id: 0 };
        if flag != 1 {
            if !has_mem {
                continue;
            }
            if !ig.is_empty() && g.r.chance(1, 4) {
                s.via_global = Some(*g.r.pick(&ig));
            } else {
                let gap = *g.r.pick(&[0u64, 0, 1, 3, 16, 1000, 70_000]);
                let o = at + gap;
                if o + len as u64 > 0xffff_fff0 {
                    continue;
                }
                s.off = Some(o);
                at = o + len as u64;
            }
        }
        data.push(s);
    }
    g.r.shuffle(&mut data);
    let dnames_on = with_names && g.r.chance(1, 2);
    let mut dnames: Vec<Option<String>> = vec![];
    for i in 0..data.len() {
        let nm = if dnames_on && g.r.chance(2, 3) {
            let n = free_name(g.r, cfg);
            let l = uniq(&mut used, format!("seg {}", n));
            Some(l["seg ".len()..].to_string())
        } else {
            None
        };
        let label = match &nm {
            Some(n) => format!("data segment \"{}\"", n),
            None => format!("data[{}]", i),
        };
        dnames.push(nm);
        data[i].id = truth.add(label, 0, Kind::Data, "data segment");
    }
    if has_data_sec && g.r.chance(1, 2) {
        let mut p = vec![];
        g.u(&mut p, data.len() as u32);
        let b = frame(&mut g, 12, &p);
        hdr_item(&mut truth, "data count section headers".into(), b.len(), 0);
        secs.push(Sec { bytes: b });
        feats.insert("data-count");
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    // code
    {
        let act: Vec<(u64, usize, usize)> = data.iter().filter_map(|s| s.off.map(|o| (o, s.len, s.id))).collect();
        let mut p = vec![];
        g.u(&mut p, nf as u32);
        let mut sum = 0;
        for i in 0..nf {
            let me = fidx[n_imp_f + i];
            truth.edges.insert((me, tid[ftys[i]]));
            let mut b = vec![];
            // locals
            let ng = g.r.below(3);
            g.u(&mut b, ng as u32);
            for _ in 0..ng {
                let c = g.r.u32() % 4;
                g.u(&mut b, c);
                b.push(*g.r.pick(&vals));
            }
            let large = cfg.big == 3 && i == nf / 2;
            let ns = if cfg.big == 11 { usize::from(g.r.chance(1, 4)) } else if cfg.big == 4 && nf > 100 { 0 } else if large { 40_000 } else { g.r.below(cfg.stmts + 1) };
            let enough = g.r.range(50_000, 120_000);
            let t = &types[ftys[i]];
            // something only the very end of a long body refers to
            let last = fidx.len() - 1;
            let held = large && last > 0 && types[fty[last]].rets.is_empty();
            let upto = if held { last } else { fidx.len() };
            for _ in 0..ns {
                if large && b.len() > enough {
                    break;
                }
                stmt(&mut g, &mut b, me, t, &types, &fty[..upto], &fidx[..upto], &tty, &gty, &gidx, &act, has_mem && !mem64, has_data_sec.then(|| data.len()).unwrap_or(0), n_elems, void_ty, &tags, &mut truth, &mut feats, 0);
            }
            if held {
                for &p in &types[fty[last]].params {
                    g.konst(&mut b, p);
                }
                b.push(0x10);
                g.u(&mut b, last as u32);
                truth.edges.insert((me, fidx[last]));
                feats.insert("reference-at-the-end-of-a-long-body");
            }
            for rt in t.rets.clone() {
                g.konst(&mut b, rt);
            }
            b.push(0x0b);
            let st = p.len();
            g.u(&mut p, b.len() as u32);
            p.extend_from_slice(&b);
            let sz = (p.len() - st + decl_sizes[i]) as u32;
            truth.items[me].size = sz;
            sum += sz;
        }
        let b = frame(&mut g, 10, &p);
        hdr_item(&mut truth, "code section headers".into(), b.len() + func_sec_len, sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    if has_data_sec {
        let mut p = vec![];
        g.u(&mut p, data.len() as u32);
        let mut sum = 0;
        for s in &data {
            let st = p.len();
            g.u(&mut p, s.flag);
            if s.flag == 2 {
                g.u(&mut p, 0);
            }
            if s.flag != 1 {
                match (s.via_global, s.off) {
                    (Some(k), _) => {
                        p.push(0x23);
                        g.u(&mut p, k as u32);
                        feats.insert("data-global-offset");
                    }
                    (None, Some(o)) => {
                        if mem64 {
                            p.push(0x42);
                            g.s64(&mut p, o as i64);
                        } else {
                            p.push(0x41);
                            g.s32(&mut p, o as u32 as i32);
                        }
                        if o >= 0x8000_0000 {
                            feats.insert("data-above-2GiB");
                        }
                    }
                    _ => unreachable!(),
                }
                p.push(0x0b);
            } else {
                feats.insert("data-passive");
            }
            g.u(&mut p, s.len as u32);
            for _ in 0..s.len {
                p.push(g.r.u32() as u8);
            }
            let sz = (p.len() - st) as u32;
            truth.items[s.id].size = sz;
            sum += sz;
        }
        let b = frame(&mut g, 11, &p);
        hdr_item(&mut truth, "data section headers".into(), b.len(), sum);
        secs.push(Sec { bytes: b });
    }
    custom(&mut g, &mut truth, &mut secs, &mut feats, cfg);
    // name section
    if with_names {
        let mut subs: Vec<(u8, Vec<u8>)> = vec![];
        let map = |g: &mut G, ents: &[(usize, String)]| -> Vec<u8> {
            let mut q = vec![];
            g.u(&mut q, ents.len() as u32);
            for (i, n) in ents {
                g.u(&mut q, *i as u32);
                g.name(&mut q, n);
            }
            q
        };
        if g.r.bool() {
            let mut q = vec![];
            let n = names::text(g.r, 8);
            g.name(&mut q, &n);
            subs.push((0, q));
        }
        let ents: Vec<(usize, String)> = fnames.iter().enumerate().filter_map(|(i, n)| n.clone().map(|n| (i, n))).collect();
        subs.push((1, map(&mut g, &ents)));
        if g.r.bool() {
            let mut q = vec![];
            g.u(&mut q, 1);
            g.u(&mut q, 0);
            q.extend(map(&mut g, &[(0, "loc".into())]));
            subs.push((2, q));
        }
        for k in [3u8, 4, 5, 6, 7, 8] {
            if g.r.chance(1, 5) {
                if k == 3 {
                    let mut q = vec![];
                    g.u(&mut q, 1);
                    g.u(&mut q, 0);
                    q.extend(map(&mut g, &[(0, "lab".into())]));
                    subs.push((k, q));
                } else {
                    subs.push((k, map(&mut g, &[(0, format!("n{}", k))])));
                }
            }
        }
        if dnames_on {
            let ents: Vec<(usize, String)> = dnames.iter().enumerate().filter_map(|(i, n)| n.clone().map(|n| (i, n))).collect();
            subs.push((9, map(&mut g, &ents)));
            feats.insert("data-names");
        }
        if g.r.chance(1, 4) {
            subs.push((*g.r.pick(&[10u8, 11, 12, 100]), map(&mut g, &[(0, "x".into())])));
            feats.insert("unknown-name-subsection");
        }
        if g.r.chance(1, 3) {
            g.r.shuffle(&mut subs);
        }
        let mut groups: Vec<Vec<(u8, Vec<u8>)>> = vec![vec![]];
        for s in subs {
            if g.r.chance(1, 12) {
                groups.push(vec![]);
                feats.insert("several-name-sections");
            }
            groups.last_mut().unwrap().push(s);
        }
        for gr in groups {
            let mut p = vec![];
            g.name(&mut p, "name");
            let mut sum = 0;
            for (k, q) in gr {
                let st = p.len();
                p.push(k);
                g.u(&mut p, q.len() as u32);
                p.extend(q);
                let sz = (p.len() - st) as u32;
                sum += sz;
                let l = match k {
                    0 => "module name",
                    1 => "function names",
                    2 => "local names",
                    3 => "label names",
                    4 => "type names",
                    5 => "table names",
                    6 => "memory names",
                    7 => "global names",
                    8 => "element names",
                    9 => "data names",
                    _ => "unknown name",
                };
                let id = truth.add(format!("\"{}\" subsection", l), sz, Kind::Debug, "name subsection");
                truth.roots.insert(id);
            }
            let b = frame(&mut g, 0, &p);
            hdr_item(&mut truth, "custom section 'name' headers".into(), b.len(), sum);
            // custom sections may stand anywhere
            let place = if g.r.chance(1, 6) { g.r.range(1, secs.len()) } else { secs.len() };
            secs.insert(place, Sec { bytes: b });
        }
    }
    let mut bytes = vec![];
    for s in secs {
        bytes.extend(s.bytes);
    }
    Module { bytes, truth, features: feats }
}

const SCALAR_LOADS: [(u8, u32); 14] = [
    (0x28, 2), (0x29, 3), (0x2a, 2), (0x2b, 3), (0x2c, 0), (0x2d, 0), (0x2e, 1), (0x2f, 1), (0x30, 0), (0x31, 0), (0x32, 1), (0x33, 1), (0x34, 2), (0x35, 2),
];

#[allow(clippy::too_many_arguments)]
fn stmt(
    g: &mut G,
    b: &mut Vec<u8>,
    me: usize,
    my: &FTy,
    types: &[FTy],
    fty: &[usize],
    fidx: &[usize],
    tty: &[u8],
    gty: &[(u8, bool)],
    gidx: &[usize],
    act: &[(u64, usize, usize)],
    mem: bool,
    ndata: usize,
    nelem: usize,
    void_ty: usize,
    tags: &[usize],
    truth: &mut Truth,
    feats: &mut BTreeSet<&'static str>,
    depth: usize,
) {
    let call_args = |g: &mut G, b: &mut Vec<u8>, t: &FTy| {
        for &p in &t.params {
            g.konst(b, p);
        }
    };
    match g.r.below(if tags.is_empty() { 24 } else { 26 }) {
        24 => {
            // i32.const 0; if; ...; throw; end
            let k = g.r.below(tags.len());
            b.extend_from_slice(&[0x41, 0, 0x04, 0x40]);
            call_args(g, b, &types[tags[k]]);
            b.push(0x08);
            g.u(b, k as u32);
            b.push(0x0b);
            feats.insert("throw");
        }
        25 if depth < 3 => {
            b.extend_from_slice(&[0x06, 0x40]);
            for _ in 0..g.r.below(3) {
                stmt(g, b, me, my, types, fty, fidx, tty, gty, gidx, act, mem, ndata, nelem, void_ty, tags, truth, feats, depth + 1);
            }
            if g.r.chance(1, 5) {
                b.extend_from_slice(&[0x18, 0]); // delegate to the enclosing label
            } else {
                for _ in 0..g.r.below(3) {
                    let k = g.r.below(tags.len());
                    b.push(0x07);
                    g.u(b, k as u32);
                    for _ in &types[tags[k]].params {
                        b.push(0x1a);
                    }
                    for _ in 0..g.r.below(2) {
                        stmt(g, b, me, my, types, fty, fidx, tty, gty, gidx, act, mem, ndata, nelem, void_ty, tags, truth, feats, depth + 1);
                    }
                }
                if g.r.bool() {
                    b.push(0x19);
                    if g.r.bool() {
                        b.extend_from_slice(&[0x09, 0]); // rethrow
                    }
                }
                b.push(0x0b);
            }
            feats.insert("try-catch");
        }
        0..=4 if !fidx.is_empty() => {
            let f = g.r.below(fidx.len());
            let t = &types[fty[f]];
            call_args(g, b, t);
            b.push(0x10);
            g.u(b, f as u32);
            for _ in &t.rets {
                b.push(0x1a);
            }
            truth.edges.insert((me, fidx[f]));
            feats.insert("call");
            if fidx[f] == me {
                feats.insert("self-call");
            }
        }
        5 if !fidx.is_empty() => {
            // of very many functions, one of a few
            let from = if fidx.len() > 5000 { g.r.below(fidx.len() - 64) } else { 0 };
            let c: Vec<usize> = (from..fidx.len()).take(if fidx.len() > 5000 { 64 } else { 5000 }).filter(|&f| types[fty[f]].rets == my.rets).collect();
            if c.is_empty() {
                return;
            }
            let f = *g.r.pick(&c);
            b.extend_from_slice(&[0x41, 0, 0x04, 0x40]);
            call_args(g, b, &types[fty[f]]);
            b.push(0x12);
            g.u(b, f as u32);
            b.push(0x0b);
            truth.edges.insert((me, fidx[f]));
            feats.insert("return-call");
        }
        6 if !fidx.is_empty() => {
            let f = g.r.below(fidx.len());
            b.push(0xd2);
            g.u(b, f as u32);
            b.push(0x1a);
            truth.edges.insert((me, fidx[f]));
            feats.insert("ref-func");
        }
        7 => {
            let c: Vec<usize> = (0..tty.len()).filter(|&i| tty[i] == FUNCREF).collect();
            if c.is_empty() {
                return;
            }
            let ti = *g.r.pick(&c);
            let k = g.r.below(types.len());
            let tail = g.r.chance(1, 4) && types[k].rets == my.rets;
            if tail {
                b.extend_from_slice(&[0x41, 0, 0x04, 0x40]);
            }
            call_args(g, b, &types[k]);
            b.extend_from_slice(&[0x41, 0]);
            b.push(if tail { 0x13 } else { 0x11 });
            g.u(b, k as u32);
            g.u(b, ti as u32);
            if tail {
                b.push(0x0b);
            } else {
                for _ in &types[k].rets {
                    b.push(0x1a);
                }
            }
            feats.insert("call-indirect");
        }
        8 | 9 if !gidx.is_empty() => {
            let k = g.r.below(gidx.len());
            b.push(0x23);
            g.u(b, k as u32);
            b.push(0x1a);
            truth.edges.insert((me, gidx[k]));
            feats.insert("global-get");
        }
        10 => {
            let c: Vec<usize> = (0..gidx.len()).filter(|&k| gty[k].1).collect();
            if c.is_empty() {
                return;
            }
            let k = *g.r.pick(&c);
            g.konst(b, gty[k].0);
            b.push(0x24);
            g.u(b, k as u32);
            truth.edges.insert((me, gidx[k]));
            feats.insert("global-set");
        }
        11..=15 if mem => {
            // load at a constant address, aimed at segment boundaries
            if g.r.chance(1, 10) && !act.is_empty() {
                // one beyond the end of 32-bit memory, which wraps around to nothing
                let (o, l, _) = *g.r.pick(act);
                let w = (o + if l > 0 { g.r.u64() % l as u64 } else { 0 }) as u32;
                let off = w.saturating_add(1).saturating_add(*g.r.pick(&[0, 1, 3, 1 << 16, 1 << 30]));
                b.push(0x41);
                g.s32(b, w.wrapping_sub(off) as i32);
                let (op, al) = *g.r.pick(&SCALAR_LOADS);
                b.push(op);
                g.u(b, al);
                g.u(b, off);
                b.push(0x1a);
                if off > w {
                    feats.insert("load-beyond-32-bits");
                }
                return;
            }
            let want: u64 = if act.is_empty() || g.r.chance(1, 6) {
                u64::from(g.r.u32()) >> g.r.below(32)
            } else {
                let (o, l, _) = *g.r.pick(act);
                let l = l as u64;
                match g.r.below(6) {
                    0 => o,
                    1 => o + l,
                    2 => o + l.saturating_sub(1),
                    3 => o.saturating_sub(1),
                    _ => o + if l > 0 { g.r.u64() % l } else { 0 },
                }
            };
            let want = want.min(0xffff_ffff);
            let off = match g.r.below(4) {
                0 => want,
                1 => want / 2,
                2 => want.min(g.r.u64() % 64),
                _ => 0,
            };
            let addr = (want - off) as u32;
            b.push(0x41);
            g.s32(b, addr as i32);
            let (op, al) = *g.r.pick(&SCALAR_LOADS);
            let mode = g.r.below(6);
            if mode == 0 {
                b.push(0x01); // nop in between: not "right after"
            }
            b.push(op);
            g.u(b, al);
            g.u(b, off as u32);
            b.push(0x1a);
            if mode != 0 {
                feats.insert("const-load");
                if addr >= 0x8000_0000 {
                    feats.insert("const-load-above-2GiB");
                }
                if let Some(x) = act.iter().filter(|x| x.1 > 0 && x.0 >= want).min_by_key(|x| x.0) {
                    truth.next_seg.insert((me, x.2));
                }
                for &(o, l, id) in act {
                    if want >= o && want < o + l as u64 {
                        truth.edges.insert((me, id));
                        feats.insert("data-edge");
                    }
                }
            }
        }
        16 if mem => {
            // store: the constant is the value, not tracked
            let a = act.first().map_or(0, |x| x.0) as u32 as i32;
            b.push(0x41);
            g.s32(b, a);
            b.push(0x41);
            g.s32(b, a);
            b.push(0x36);
            g.u(b, 2);
            g.u(b, 0);
            feats.insert("store");
        }
        17 if mem => {
            match g.r.below(6) {
                0 => {
                    b.extend_from_slice(&[0x3f, 0, 0x1a]);
                }
                1 => {
                    b.extend_from_slice(&[0x41, 0, 0x40, 0, 0x1a]);
                }
                2 => {
                    b.extend_from_slice(&[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 0x0a, 0, 0]);
                }
                3 => {
                    b.extend_from_slice(&[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 0x0b, 0]);
                }
                4 => {
                    // v128.load, dropped
                    b.extend_from_slice(&[0x41, 0, 0xfd, 0x00, 4, 0, 0x1a]);
                    feats.insert("simd");
                }
                _ => {
                    // i32.atomic.load
                    b.extend_from_slice(&[0x41, 0, 0xfe, 0x10, 2, 0, 0x1a]);
                    feats.insert("atomics");
                }
            }
            feats.insert("memory-ops");
        }
        18 if mem && ndata > 0 => {
            let k = g.r.below(ndata);
            b.extend_from_slice(&[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 0x08]);
            g.u(b, k as u32);
            b.push(0);
            b.extend_from_slice(&[0xfc, 0x09]);
            g.u(b, k as u32);
            feats.insert("memory-init");
        }
        19 if !tty.is_empty() => {
            let k = g.r.below(tty.len());
            match g.r.below(4) {
                0 => {
                    b.extend_from_slice(&[0x41, 0, 0x25]);
                    g.u(b, k as u32);
                    b.push(0x1a);
                }
                1 => {
                    b.extend_from_slice(&[0xfc, 0x10]);
                    g.u(b, k as u32);
                    b.push(0x1a);
                }
                2 => {
                    b.extend_from_slice(&[0x41, 0, 0xd0, tty[k], 0x26]);
                    g.u(b, k as u32);
                }
                _ => {
                    if nelem > 0 {
                        let e = g.r.below(nelem);
                        b.extend_from_slice(&[0xfc, 0x0d]);
                        g.u(b, e as u32);
                    }
                }
            }
            feats.insert("table-ops");
        }
        20 | 21 if depth < 3 => {
            let form = g.r.below(3);
            match form {
                0 => b.extend_from_slice(&[0x02, 0x40]),
                1 => b.extend_from_slice(&[0x03, 0x40]),
                _ => {
                    b.extend_from_slice(&[0x41, 1, 0x04]);
                    // block type by type index
                    g.s32(b, void_ty as i32);
                }
            }
            for _ in 0..g.r.below(3) {
                stmt(g, b, me, my, types, fty, fidx, tty, gty, gidx, act, mem, ndata, nelem, void_ty, tags, truth, feats, depth + 1);
            }
            if form == 2 && g.r.bool() {
                b.push(0x05);
                for _ in 0..g.r.below(2) {
                    stmt(g, b, me, my, types, fty, fidx, tty, gty, gidx, act, mem, ndata, nelem, void_ty, tags, truth, feats, depth + 1);
                }
            } else if g.r.chance(1, 3) {
                b.extend_from_slice(&[0x41, 0, 0x0e, 2, 0, 0, 0]); // br_table
            } else if g.r.chance(1, 3) {
                b.extend_from_slice(&[0x41, 0, 0x0d, 0]); // br_if
            }
            b.push(0x0b);
            feats.insert("control");
        }
        22 => {
            let t = *g.r.pick(&[I32, I64, F32, F64, V128]);
            g.konst(b, t);
            g.konst(b, t);
            match t {
                I32 => b.extend_from_slice(&[0x6a, 0xc0, 0x1a]),
                I64 => b.extend_from_slice(&[0x7c, 0xc4, 0x1a]),
                F32 => b.extend_from_slice(&[0x92, 0xfc, 0x00, 0x1a]),
                F64 => b.extend_from_slice(&[0xa0, 0xfc, 0x06, 0x1a]),
                _ => {
                    b.extend_from_slice(&[0xfd, 0x0d]);
                    for k in 0..16 {
                        b.push(k);
                    }
                    b.push(0x1a);
                }
            }
            feats.insert("arith");
        }
        _ => {
            let t = *g.r.pick(&[I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]);
            g.konst(b, t);
            b.push(0x1a);
        }
    }
}
