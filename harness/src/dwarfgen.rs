//! Random linked native binaries with DWARF debugging information whose
//! subprograms are known by construction.
use crate::names;
use crate::rng::Rng;
use crate::syms;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Sub {
    /// `None`: too long to be insisted on
    pub name: Option<String>,
    pub size: u64,
    /// unit and entry number of a positional label
    pub pos: (usize, usize),
}

#[derive(Clone, Debug)]
pub struct Native {
    pub bytes: Vec<u8>,
    pub subs: Vec<Sub>,
    pub features: BTreeSet<String>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_units: usize,
    pub max_dies: usize,
    /// exactly as many as that
    pub exact: bool,
    /// Names given by the caller (used at random if not empty).
    pub names: Vec<String>,
    pub only_elf: bool,
    /// The longest range of code.
    pub most: u64,
    /// A subprogram of two gigabytes or more, once in a while.
    pub huge: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { max_units: 4, max_dies: 14, exact: false, names: vec![], only_elf: false, most: u64::MAX, huge: false }
    }
}

const ADDR: u16 = 0x01;
const BLOCK2: u16 = 0x03;
const BLOCK4: u16 = 0x04;
const DATA2: u16 = 0x05;
const DATA4: u16 = 0x06;
const DATA8: u16 = 0x07;
const STRING: u16 = 0x08;
const BLOCK: u16 = 0x09;
const BLOCK1: u16 = 0x0a;
const DATA1: u16 = 0x0b;
const FLAG: u16 = 0x0c;
const SDATA: u16 = 0x0d;
const STRP: u16 = 0x0e;
const UDATA: u16 = 0x0f;
const REF_ADDR: u16 = 0x10;
const REF1: u16 = 0x11;
const REF2: u16 = 0x12;
const REF4: u16 = 0x13;
const REF8: u16 = 0x14;
const REF_UDATA: u16 = 0x15;
const INDIRECT: u16 = 0x16;
const SEC_OFFSET: u16 = 0x17;
const EXPRLOC: u16 = 0x18;
const FLAG_PRESENT: u16 = 0x19;
const STRX: u16 = 0x1a;
const ADDRX: u16 = 0x1b;
const DATA16: u16 = 0x1e;
const LINE_STRP: u16 = 0x1f;
const IMPLICIT_CONST: u16 = 0x21;
const RNGLISTX: u16 = 0x23;
const REF_SIG8: u16 = 0x20;
const STRX1: u16 = 0x25;
const ADDRX1: u16 = 0x29;

const AT_NAME: u16 = 0x03;
const AT_LOW: u16 = 0x11;
const AT_HIGH: u16 = 0x12;
const AT_RANGES: u16 = 0x55;
const AT_LINKAGE: u16 = 0x6e;

/// An attribute as abbreviated, and its bytes in .debug_info.
struct Attr {
    at: u16,
    form: u16,
    implicit: Option<i64>,
    bytes: Vec<u8>,
}

struct Strings {
    data: Vec<u8>,
}
impl Strings {
    fn add(&mut self, s: &[u8]) -> u64 {
        let o = self.data.len() as u64;
        self.data.extend_from_slice(s);
        self.data.push(0);
        o
    }
}

struct W {
    big: bool,
}
impl W {
    fn n(&self, o: &mut Vec<u8>, v: u64, size: usize) {
        let b = v.to_be_bytes();
        let b = &b[8 - size..];
        if self.big {
            o.extend_from_slice(b);
        } else {
            o.extend(b.iter().rev());
        }
    }
}
pub fn uleb(o: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
pub fn sleb(o: &mut Vec<u8>, mut v: i64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}

/// An index that does not fit the one or two bytes of its form takes the form
/// of any length.
fn widen(form: u16, any: u16, i: usize) -> u16 {
    let first = if any == STRX { STRX1 } else { ADDRX1 };
    match form {
        f if f == first && i > 0xff || f == first + 1 && i > 0xffff => any,
        f => f,
    }
}

struct File {
    big: bool,
    class64: bool,
    info: Vec<u8>,
    abbrev: Vec<u8>,
    str_: Strings,
    line_str: Strings,
    str_offsets: Vec<u8>,
    addr: Vec<u8>,
    ranges: Vec<u8>,
    rnglists: Vec<u8>,
    subs: Vec<Sub>,
    features: BTreeSet<String>,
    units: usize,
}

struct Unit<'a> {
    f: &'a mut File,
    v: u16,
    fmt64: bool,
    asize: usize,
    /// strings and addresses the unit indexes
    strx: Vec<u64>,
    addrx: Vec<u64>,
    rnglistx: Vec<u64>,
    /// range lists of this unit (offsets relative to the unit's contribution)
    lists: Vec<u8>,
    /// where those begin in .debug_rnglists
    lists_at: u64,
    base: u64,
    abbrevs: Vec<(u64, Vec<u8>)>,
    codes: std::collections::HashMap<Vec<u8>, u64>,
    body: Vec<u8>,
    header: u64,
    number: usize,
    entries: usize,
    dies: Vec<u64>,
    left: usize,
    /// entries within entries, some hundred deep
    deep: bool,
}

impl<'a> Unit<'a> {
    fn w(&self) -> W {
        W { big: self.f.big }
    }
    fn feat(&mut self, s: impl Into<String>) {
        self.f.features.insert(s.into());
    }
    fn osize(&self) -> usize {
        if self.fmt64 {
            8
        } else {
            4
        }
    }
    fn off(&self, o: &mut Vec<u8>, v: u64) {
        self.w().n(o, v, self.osize())
    }
    fn mask(&self) -> u64 {
        if self.asize == 8 {
            u64::MAX
        } else {
            u64::from(u32::MAX)
        }
    }
    fn string(&mut self, r: &mut Rng, at: u16, s: &[u8]) -> Attr {
        let mut forms = vec![STRING, STRP, STRP];
        if self.v >= 5 {
            forms.extend([LINE_STRP, STRX, STRX1, STRX1 + 1, STRX1 + 2, STRX1 + 3]);
        }
        let form = widen(*r.pick(&forms), STRX, self.strx.len());
        let mut b = vec![];
        match form {
            STRING => {
                b.extend_from_slice(s);
                b.push(0);
            }
            STRP => {
                let o = self.f.str_.add(s);
                self.off(&mut b, o);
            }
            LINE_STRP => {
                let o = self.f.line_str.add(s);
                self.off(&mut b, o);
            }
            f => {
                let o = self.f.str_.add(s);
                let i = self.strx.len() as u64;
                self.strx.push(o);
                match f {
                    STRX => uleb(&mut b, i),
                    _ => self.w().n(&mut b, i, (f - STRX1) as usize + 1),
                }
            }
        }
        self.feat(format!("string form {:#04x}", form));
        self.indirect(r, Attr { at, form, implicit: None, bytes: b })
    }
    fn indirect(&mut self, r: &mut Rng, a: Attr) -> Attr {
        if a.implicit.is_none() && r.chance(1, 25) {
            self.feat("form 0x16 (indirect)");
            let mut b = vec![];
            uleb(&mut b, u64::from(a.form));
            b.extend(a.bytes);
            return Attr { at: a.at, form: INDIRECT, implicit: None, bytes: b };
        }
        a
    }
    fn address(&mut self, r: &mut Rng, at: u16, v: u64) -> Attr {
        let mut forms = vec![ADDR, ADDR];
        if self.v >= 5 {
            forms.extend([ADDRX, ADDRX, ADDRX1, ADDRX1 + 1, ADDRX1 + 2, ADDRX1 + 3]);
        }
        let form = widen(*r.pick(&forms), ADDRX, self.addrx.len());
        let mut b = vec![];
        if form == ADDR {
            self.w().n(&mut b, v, self.asize);
        } else {
            let i = self.addrx.len() as u64;
            self.addrx.push(v);
            match form {
                ADDRX => uleb(&mut b, i),
                f => self.w().n(&mut b, i, (f - ADDRX1) as usize + 1),
            }
        }
        self.feat(format!("{} form {:#04x}", if at == AT_LOW { "low_pc" } else { "high_pc address" }, form));
        self.indirect(r, Attr { at, form, implicit: None, bytes: b })
    }
    fn constant(&mut self, r: &mut Rng, at: u16, v: u64) -> Attr {
        let mut forms = vec![DATA8, UDATA, DATA8];
        if v <= 0xffff_ffff {
            forms.extend([DATA4, DATA4, DATA4]);
        }
        if v <= 0xffff {
            forms.push(DATA2);
        }
        if v <= 0xff {
            forms.push(DATA1);
        }
        if v <= i64::MAX as u64 {
            forms.push(SDATA);
            if self.v >= 5 {
                forms.push(IMPLICIT_CONST);
            }
        }
        let form = *r.pick(&forms);
        let mut b = vec![];
        let mut implicit = None;
        match form {
            DATA1 => b.push(v as u8),
            DATA2 => self.w().n(&mut b, v, 2),
            DATA4 => self.w().n(&mut b, v, 4),
            DATA8 => self.w().n(&mut b, v, 8),
            UDATA => uleb(&mut b, v),
            SDATA => sleb(&mut b, v as i64),
            _ => implicit = Some(v as i64),
        }
        if at == AT_HIGH {
            self.feat(format!("high_pc offset form {:#04x}", form));
        }
        self.indirect(r, Attr { at, form, implicit, bytes: b })
    }
    /// A range list in the encoding of the unit's version.
    fn ranges(&mut self, r: &mut Rng, at: u16, list: &[(u64, u64)]) -> Attr {
        let mut b = vec![];
        if self.v < 5 {
            let o = self.f.ranges.len() as u64;
            let mut base = self.base;
            let mut out = vec![];
            for &(lo, len) in list {
                let start = lo.wrapping_sub(base) & self.mask();
                // a pair (0, 0) would end the list, one beginning with all ones sets the base
                if r.chance(1, 4) || (start == 0 && len == 0) || lo < base || start >= self.mask() - 1 {
                    base = if r.bool() && lo > 0x100 { lo - 0x100 } else { lo - lo.min(1) };
                    self.w().n(&mut out, self.mask(), self.asize);
                    self.w().n(&mut out, base, self.asize);
                    self.feat("ranges with a base address selection");
                }
                self.w().n(&mut out, lo - base, self.asize);
                self.w().n(&mut out, lo - base + len, self.asize);
            }
            self.w().n(&mut out, 0, self.asize);
            self.w().n(&mut out, 0, self.asize);
            self.f.ranges.extend(out);
            let form = if self.v == 4 {
                SEC_OFFSET
            } else if self.fmt64 {
                DATA8
            } else {
                DATA4
            };
            self.off(&mut b, o);
            self.feat(format!("ranges form {:#04x} in version {}", form, self.v));
            return self.indirect(r, Attr { at, form, implicit: None, bytes: b });
        }
        let o = self.lists.len() as u64;
        let mut out = vec![];
        let mut base = self.base;
        for &(lo, len) in list {
            let k = r.below(7);
            match k {
                0 => {
                    let i = self.addrx.len() as u64;
                    self.addrx.push(lo);
                    self.addrx.push(lo + len);
                    out.push(2);
                    uleb(&mut out, i);
                    uleb(&mut out, i + 1);
                }
                1 => {
                    let i = self.addrx.len() as u64;
                    self.addrx.push(lo);
                    out.push(3);
                    uleb(&mut out, i);
                    uleb(&mut out, len);
                }
                2 => {
                    out.push(6);
                    self.w().n(&mut out, lo, self.asize);
                    self.w().n(&mut out, lo + len, self.asize);
                }
                3 => {
                    out.push(7);
                    self.w().n(&mut out, lo, self.asize);
                    uleb(&mut out, len);
                }
                _ => {
                    if lo < base || k == 4 {
                        base = lo - lo.min(0x40);
                        out.push(5);
                        self.w().n(&mut out, base, self.asize);
                    } else if k == 5 {
                        base = lo - lo.min(3);
                        out.push(1);
                        let i = self.addrx.len() as u64;
                        self.addrx.push(base);
                        uleb(&mut out, i);
                    }
                    out.push(4);
                    uleb(&mut out, lo - base);
                    uleb(&mut out, lo - base + len);
                }
            }
            self.feat(format!("range list entry of kind {}", k));
        }
        out.push(0);
        self.lists.extend(out);
        let form = if r.bool() {
            uleb(&mut b, self.rnglistx.len() as u64);
            self.rnglistx.push(o);
            RNGLISTX
        } else {
            let at = self.lists_at + o;
            self.off(&mut b, at);
            SEC_OFFSET
        };
        self.feat(format!("ranges form {:#04x} in version 5", form));
        Attr { at, form, implicit: None, bytes: b }
    }
    /// An attribute that must not matter.
    fn other(&mut self, r: &mut Rng) -> Attr {
        let b2 = |u: &Self, v: u64, n: usize| {
            let mut b = vec![];
            u.w().n(&mut b, v, n);
            b
        };
        let prev = self.dies.last().copied().unwrap_or(self.header);
        let rnd = r.u64();
        let (at, form, bytes): (u16, u16, Vec<u8>) = match r.below(16) {
            0 => (0x3a, DATA1, vec![rnd as u8]),
            1 => (0x3b, DATA2, b2(self, rnd & 0xffff, 2)),
            2 => (0x3b, UDATA, {
                let mut b = vec![];
                uleb(&mut b, rnd);
                b
            }),
            3 => (0x1c, SDATA, {
                let mut b = vec![];
                sleb(&mut b, rnd as i64);
                b
            }),
            4 => (0x3f, FLAG, vec![1]),
            5 if self.v >= 4 => (0x27, FLAG_PRESENT, vec![]),
            6 if self.v >= 4 => (0x40, EXPRLOC, vec![2, 0x91, 0x08]),
            7 => (0x40, BLOCK1, vec![1, 0x56]),
            8 => (0x40, BLOCK2, {
                let mut b = b2(self, 3, 2);
                b.extend([1, 2, 3]);
                b
            }),
            9 => (0x40, BLOCK4, {
                let mut b = b2(self, 1, 4);
                b.push(0x9c);
                b
            }),
            10 => (0x40, BLOCK, vec![4, 9, 9, 9, 9]),
            11 => (0x49, REF4, b2(self, prev, 4)),
            12 => (0x49, REF8, b2(self, prev, 8)),
            13 => (0x49, REF_UDATA, {
                let mut b = vec![];
                uleb(&mut b, prev);
                b
            }),
            14 if self.v >= 5 => (0x87, DATA16, vec![7; 16]),
            15 if prev < 0xffff => (0x64, REF2, b2(self, prev, 2)),
            6 if prev < 0xff => (0x64, REF1, vec![prev as u8]),
            5 => {
                // version 2 sizes these like an address
                let n = if self.v == 2 { self.asize } else { self.osize() };
                (0x31, REF_ADDR, b2(self, self.header, n))
            }
            _ if self.v >= 4 => (0x3c + 0x2d, REF_SIG8, b2(self, rnd, 8)),
            _ => (0x3a, DATA8, b2(self, rnd, 8)),
        };
        Attr { at, form, implicit: None, bytes }
    }
    fn die(&mut self, tag: u16, children: bool, attrs: Vec<Attr>, r: &mut Rng) {
        let mut a = vec![];
        uleb(&mut a, u64::from(tag));
        a.push(u8::from(children));
        for x in &attrs {
            uleb(&mut a, u64::from(x.at));
            uleb(&mut a, u64::from(x.form));
            if let Some(v) = x.implicit {
                sleb(&mut a, v);
            }
        }
        a.extend([0, 0]);
        let code = match self.codes.get(&a) {
            Some(c) => *c,
            None => {
                let c = self.abbrevs.last().map_or(0, |x| x.0) + if r.chance(1, 10) { r.range(1, 200) as u64 } else { 1 };
                self.codes.insert(a.clone(), c);
                self.abbrevs.push((c, a));
                c
            }
        };
        self.dies.push(self.header + self.body.len() as u64);
        uleb(&mut self.body, code);
        for x in attrs {
            self.body.extend(x.bytes);
        }
    }
    fn name(&mut self, r: &mut Rng, cfg: &Cfg) -> Vec<u8> {
        if !cfg.names.is_empty() {
            return r.pick(&cfg.names).clone().into_bytes();
        }
        if r.chance(1, 30) {
            // compilers take identifiers in any encoding
            self.feat("name that is not UTF-8");
            let mut b = names::ident(r).into_bytes();
            let k = r.below(b.len() + 1);
            b.insert(k, r.range(0x80, 0xff) as u8);
            return b;
        }
        let s = match r.below(8) {
            0 => syms::rust_legacy(r).raw,
            1 => syms::rust_v0(r).raw,
            2 | 3 => syms::cpp(r).raw,
            4 => syms::near(r).replace('\0', ""),
            5 => names::hostile(r, 20).replace('\0', ""),
            _ => names::ident(r),
        };
        s.into_bytes()
    }
    /// Code of one subprogram: its attributes and size.
    fn code(&mut self, r: &mut Rng, cfg: &Cfg) -> (Vec<Attr>, u64) {
        let most = cfg.most;
        let top = if self.asize == 8 { 1u64 << 47 } else { 0xf000_0000 };
        let len = |r: &mut Rng| most.min(match r.below(6) {
            0 => r.range(1, 10) as u64,
            1 => r.range(1, 0xff) as u64,
            2 => r.range(0x100, 0xffff) as u64,
            3 => r.range(0x1_0000, 0x00ff_ffff) as u64,
            _ => r.range(1, 2000) as u64,
        });
        let at = |r: &mut Rng, base: u64| match r.below(5) {
            // relocatable code begins at zero; and a unit's first at its base
            4 if r.chance(1, 2) => 0,
            4 => base,
            0 => 0x1000 + r.u64() % (top - 0x0200_0000),
            1 => base.max(16) + 1,
            _ => base.max(16) + 1 + r.u64() % 0x0080_0000,
        };
        let base = self.base;
        if r.chance(3, 5) {
            let (mut lo, mut n) = (at(r, base), len(r));
            if cfg.huge && r.chance(1, 30) {
                n = *r.pick(&[1 << 31, (1 << 31) - 1, (1 << 31) + 1, 0x9000_0000]);
                lo %= 0x1000_0000;
                self.feat("subprogram of two gigabytes".to_string());
            }
            if lo == 0 {
                self.feat("code at address zero".to_string());
            }
            let low = self.address(r, AT_LOW, lo);
            let high = if self.v < 4 || r.chance(1, 4) { self.address(r, AT_HIGH, lo + n) } else { self.constant(r, AT_HIGH, n) };
            return (vec![low, high], n);
        }
        let k = match r.below(5) {
            0 => 1,
            1 => r.range(2, 12),
            _ => r.range(2, 4),
        };
        let mut list = vec![];
        let mut sum = 0;
        for _ in 0..k {
            let lo = at(r, base);
            let n = if r.chance(1, 12) && lo != 0 && lo != base { 0 } else { len(r) };
            if lo == 0 {
                self.feat("range at address zero".to_string());
            }
            list.push((lo, n));
            sum += n;
        }
        if sum == 0 {
            list.push((at(r, base), 7));
            sum = 7;
        }
        self.feat(format!("{} ranges", if list.len() > 1 { "several" } else { "one" }));
        (vec![self.ranges(r, AT_RANGES, &list)], sum)
    }
    /// A sequence of sibling entries, ended by a null entry unless it is the last.
    fn siblings(&mut self, r: &mut Rng, cfg: &Cfg, depth: usize) {
        while self.left > 0 {
            self.left -= 1;
            let entry = self.entries;
            self.entries += 1;
            let mut attrs = vec![];
            if r.chance(1, 3) {
                let o = self.other(r);
                attrs.push(o);
            }
            let mut tag = *r.pick(&[0x34u16, 0x0b, 0x1d, 0x39, 0x13, 0x24, 0x05, 0x0a, 0x17, 0x16, 0x21]);
            if r.chance(3, 5) {
                tag = 0x2e;
            }
            let (link, name) = match r.below(6) {
                0 => (None, None),
                1 => (Some(self.name(r, cfg)), None),
                2 | 3 => (None, Some(self.name(r, cfg))),
                _ => (Some(self.name(r, cfg)), Some(self.name(r, cfg))),
            };
            let mut named = vec![];
            if let Some(l) = &link {
                named.push(self.string(r, AT_LINKAGE, l));
            }
            if let Some(l) = &name {
                named.push(self.string(r, AT_NAME, l));
            }
            if tag == 0x2e {
                match r.below(6) {
                    // a declaration, an abstract instance, or a plain one without code
                    0 => {
                        let k = r.below(3);
                        self.feat(["subprogram declaration", "abstract subprogram", "subprogram without code"][k]);
                        if k == 0 {
                            attrs.push(Attr { at: 0x3c, form: FLAG, implicit: None, bytes: vec![1] });
                        } else if k == 1 {
                            attrs.push(Attr { at: 0x20, form: DATA1, implicit: None, bytes: vec![1] });
                        }
                    }
                    _ => {
                        let (code, size) = self.code(r, cfg);
                        attrs.extend(code);
                        let shown = link.as_ref().or(name.as_ref()).map_or_else(|| Some(format!("Subroutine[{}][{}]", self.number, entry)), |n| syms::displayed(&String::from_utf8_lossy(n)));
                        if link.is_none() && name.is_none() {
                            self.feat("unnamed subprogram");
                        }
                        let pos = (self.number, entry);
                        self.f.subs.push(Sub { name: shown, size, pos });
                        if depth > 0 {
                            self.feat("nested subprogram");
                        }
                    }
                }
            } else if r.chance(1, 3) && [0x0b, 0x1d, 0x0a].contains(&tag) {
                // code that is no subprogram
                let (code, _) = self.code(r, cfg);
                attrs.extend(code);
                self.feat("other entry with code");
            }
            attrs.extend(named);
            if r.chance(1, 4) {
                let o = self.other(r);
                attrs.push(o);
            }
            if r.chance(1, 3) {
                r.shuffle(&mut attrs);
            }
            if self.deep && depth == 0 && self.entries > 300 {
                self.feat("entries after deep ones");
            }
            let children = if self.deep { depth < 500 && r.chance(19, 20) } else { depth < 6 && r.chance(1, 3) };
            if depth == 100 {
                self.feat("nested a hundred deep");
            }
            self.die(tag, children, attrs, r);
            if children {
                self.siblings_some(r, cfg, depth + 1);
                self.body.push(0);
            }
        }
    }
    fn siblings_some(&mut self, r: &mut Rng, cfg: &Cfg, depth: usize) {
        // of deep entries a few are kept for the way back up
        let keep = if self.deep { self.left - if depth == 1 || r.chance(1, 6) { r.below(3).min(self.left) } else { 0 } } else { r.below(4).min(self.left) };
        let rest = self.left - keep;
        self.left = keep;
        self.siblings(r, cfg, depth);
        self.left += rest;
    }
}
fn unit(f: &mut File, r: &mut Rng, cfg: &Cfg) {
    let class64 = f.class64;
    let big = f.big;
    let v = r.range(2, 5) as u16;
    // the 64-bit format came with version 3
    let fmt64 = v >= 3 && r.chance(1, 4);
    let asize = if class64 { 8 } else { 4 };
    let w = W { big };
    let ut: u8 = if v < 5 { 0 } else { *r.pick(&[1, 1, 1, 3, 2]) };
    f.features.insert(format!("version {}", v));
    f.features.insert(format!("{}-bit DWARF, {}-bit addresses, {} endian", if fmt64 { 64 } else { 32 }, asize * 8, if big { "big" } else { "little" }));
    if v == 5 {
        f.features.insert(format!("unit type {}", ut));
    }
    let o = if fmt64 { 8 } else { 4 };
    let header = if fmt64 { 12 } else { 4 } + 2 + o + 1 + if v >= 5 { 1 } else { 0 } + if ut == 2 { 8 + o as u64 } else { 0 };
    let prefix = |x: &mut Vec<u8>, len: u64| {
        if fmt64 {
            w.n(x, 0xffff_ffff, 4);
        }
        w.n(x, len, o as usize);
    };
    let number = f.units;
    f.units += 1;
    let base = match r.below(4) {
        0 => 0,
        1 => r.u64() % (if asize == 8 { 1 << 40 } else { 0x7000_0000 }),
        _ => r.u64() % 0x0100_0000,
    };
    let so = f.str_offsets.len() as u64;
    let ao = f.addr.len() as u64;
    let ro = f.rnglists.len() as u64;
    let ab = f.abbrev.len() as u64;
    let deep = cfg.max_dies < 100 && !cfg.exact && r.chance(1, 100);
    let left = if deep {
        r.range(100, 600)
    } else if cfg.exact {
        cfg.max_dies
    } else if r.chance(1, 12) {
        0
    } else {
        r.range(1, cfg.max_dies)
    };
    // Version 5 units place their contributions to the indexed sections here.
    let hx = if fmt64 { 12u64 } else { 4 } + 2 + 2;
    let slots = left as u64 + r.range(1, 3) as u64;
    let lists_at = ro + hx + 4 + slots * o as u64;
    let mut u = Unit { f, v, fmt64, asize, strx: vec![], addrx: vec![], rnglistx: vec![], lists: vec![], lists_at, base, abbrevs: vec![], codes: Default::default(), body: vec![], header, number, entries: 0, dies: vec![], left, deep };
    let mut attrs = vec![];
    if v >= 5 {
        for (at, base) in [(0x72u16, so + hx), (0x73, ao + hx), (0x74, ro + hx + 4)] {
            let mut b = vec![];
            u.off(&mut b, base);
            attrs.push(Attr { at, form: SEC_OFFSET, implicit: None, bytes: b });
        }
    }
    let n = u.name(r, cfg);
    let a = u.string(r, AT_NAME, &n);
    attrs.push(a);
    if base != 0 || r.bool() {
        let a = u.address(r, AT_LOW, base);
        attrs.push(a);
        if r.chance(1, 3) {
            let a = if v < 4 { u.address(r, AT_HIGH, base + 0x1000) } else { u.constant(r, AT_HIGH, 0x1000) };
            attrs.push(a);
        }
    }
    if r.bool() {
        let a = u.other(r);
        attrs.push(a);
    }
    let children = left > 0;
    let tag = match ut {
        2 => 0x41,
        3 => 0x3c,
        _ => 0x11,
    };
    u.die(tag, children, attrs, r);
    if ut == 2 {
        // a type unit declares, it holds no code
        let k = r.below(3);
        for _ in 0..k.min(left) {
            let n = u.name(r, cfg);
            let a = u.string(r, AT_NAME, &n);
            u.entries += 1;
            u.die(0x2e, false, vec![a, Attr { at: 0x3c, form: FLAG_PRESENT, implicit: None, bytes: vec![] }], r);
        }
    } else {
        u.siblings(r, cfg, 0);
    }
    if children {
        u.body.push(0);
    }
    // padding after the last entry is null entries
    for _ in 0..if r.chance(1, 6) { r.range(1, 3) } else { 0 } {
        u.body.push(0);
    }
    let Unit { strx, addrx, rnglistx, lists, abbrevs, body, .. } = u;
    // abbreviations
    for (c, a) in &abbrevs {
        uleb(&mut f.abbrev, *c);
        f.abbrev.extend(a);
    }
    f.abbrev.push(0);
    // header
    let len = header + body.len() as u64 - if fmt64 { 12 } else { 4 };
    let mut h = vec![];
    prefix(&mut h, len);
    w.n(&mut h, u64::from(v), 2);
    if v >= 5 {
        h.push(ut);
        h.push(asize as u8);
        w.n(&mut h, ab, o as usize);
        if ut == 2 {
            w.n(&mut h, r.u64(), 8);
            w.n(&mut h, header, o as usize);
        }
    } else {
        w.n(&mut h, ab, o as usize);
        h.push(asize as u8);
    }
    assert_eq!(h.len() as u64, header);
    f.info.extend(h);
    f.info.extend(body);
    if v >= 5 {
        let mut x = vec![];
        w.n(&mut x, 5, 2);
        w.n(&mut x, 0, 2);
        for s in &strx {
            w.n(&mut x, *s, o as usize);
        }
        prefix(&mut f.str_offsets, x.len() as u64);
        f.str_offsets.extend(x);
        let mut x = vec![];
        w.n(&mut x, 5, 2);
        x.push(asize as u8);
        x.push(0);
        for s in &addrx {
            w.n(&mut x, *s, asize);
        }
        prefix(&mut f.addr, x.len() as u64);
        f.addr.extend(x);
        let mut x = vec![];
        w.n(&mut x, 5, 2);
        x.push(asize as u8);
        x.push(0);
        w.n(&mut x, slots, 4);
        let table = slots * o as u64;
        for k in 0..slots as usize {
            w.n(&mut x, rnglistx.get(k).map_or(0, |s| table + s), o as usize);
        }
        x.extend(lists);
        prefix(&mut f.rnglists, x.len() as u64);
        f.rnglists.extend(x);
    }
}

fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in d {
        a = (a + u32::from(x)) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
/// zlib stream of stored blocks
fn zlib(d: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let mut chunks = d.chunks(0xffff).peekable();
    if d.is_empty() {
        o.extend([1, 0, 0, 0xff, 0xff]);
    }
    while let Some(c) = chunks.next() {
        o.push(u8::from(chunks.peek().is_none()));
        let n = c.len() as u16;
        o.extend(n.to_le_bytes());
        o.extend((!n).to_le_bytes());
        o.extend(c);
    }
    o.extend(adler(d).to_be_bytes());
    o
}

fn elf(f: &File, r: &mut Rng, secs: &[(String, Vec<u8>)], feats: &mut BTreeSet<String>) -> Vec<u8> {
    let w = W { big: f.big };
    let a = if f.class64 { 8 } else { 4 };
    let ehsize = if f.class64 { 64 } else { 52 };
    let shsize = if f.class64 { 64 } else { 40 };
    let mut body: Vec<u8> = vec![];
    let mut strtab = vec![0u8];
    // name, type, flags, address, offset, size
    let mut sh: Vec<(u32, u32, u64, u64, u64, u64)> = vec![(0, 0, 0, 0, 0, 0)];
    let mut add = |body: &mut Vec<u8>, strtab: &mut Vec<u8>, name: &str, ty: u32, flags: u64, addr: u64, data: &[u8]| {
        while body.len() % 8 != 0 {
            body.push(0);
        }
        let n = strtab.len() as u32;
        strtab.extend_from_slice(name.as_bytes());
        strtab.push(0);
        sh.push((n, ty, flags, addr, (ehsize + body.len()) as u64, data.len() as u64));
        body.extend_from_slice(data);
    };
    add(&mut body, &mut strtab, ".text", 1, 6, 0x1000, &[0xc3; 32]);
    for (n, d) in secs {
        match r.below(14) {
            0 => {
                let mut z = vec![];
                w.n(&mut z, 1, 4);
                if f.class64 {
                    w.n(&mut z, 0, 4);
                }
                w.n(&mut z, d.len() as u64, a);
                w.n(&mut z, 1, a);
                z.extend(zlib(d));
                add(&mut body, &mut strtab, n, 1, 0x800, 0, &z);
                feats.insert("compressed section".into());
            }
            1 if std::env::var_os("VH_SELF").is_none() => {
                let mut z = b"ZLIB".to_vec();
                z.extend((d.len() as u64).to_be_bytes());
                z.extend(zlib(d));
                add(&mut body, &mut strtab, &n.replace(".debug", ".zdebug"), 1, 0, 0, &z);
                feats.insert("GNU-style compressed section".into());
            }
            _ => add(&mut body, &mut strtab, n, 1, 0, 0, d),
        }
    }
    let names = strtab.len() as u32;
    strtab.extend_from_slice(b".shstrtab\0");
    sh.push((names, 3, 0, 0, (ehsize + body.len()) as u64, strtab.len() as u64));
    body.extend(&strtab);
    while body.len() % 8 != 0 {
        body.push(0);
    }
    let shoff = ehsize + body.len();
    let machine = match (f.class64, f.big) {
        (true, false) => *r.pick(&[62u64, 183, 243, 8]),
        (true, true) => *r.pick(&[21u64, 22, 8, 43]),
        (false, false) => *r.pick(&[3u64, 40, 8, 243]),
        (false, true) => *r.pick(&[20u64, 8, 2, 40]),
    };
    let mut o = vec![0x7f, b'E', b'L', b'F', if f.class64 { 2 } else { 1 }, if f.big { 2 } else { 1 }, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    w.n(&mut o, if r.bool() { 2 } else { 3 }, 2);
    w.n(&mut o, machine, 2);
    w.n(&mut o, 1, 4);
    w.n(&mut o, 0x1000, a);
    w.n(&mut o, 0, a);
    w.n(&mut o, shoff as u64, a);
    w.n(&mut o, 0, 4);
    for v in [ehsize as u64, if f.class64 { 56 } else { 32 }, 0, shsize, sh.len() as u64, sh.len() as u64 - 1] {
        w.n(&mut o, v, 2);
    }
    assert_eq!(o.len(), ehsize);
    o.extend(body);
    for (n, ty, fl, ad, off, sz) in sh {
        w.n(&mut o, u64::from(n), 4);
        w.n(&mut o, u64::from(ty), 4);
        w.n(&mut o, fl, a);
        w.n(&mut o, ad, a);
        w.n(&mut o, off, a);
        w.n(&mut o, sz, a);
        w.n(&mut o, 0, 4);
        w.n(&mut o, 0, 4);
        w.n(&mut o, 1, a);
        w.n(&mut o, 0, a);
    }
    o
}

fn macho(f: &File, r: &mut Rng, secs: &[(String, Vec<u8>)]) -> Vec<u8> {
    let w = W { big: f.big };
    let a = if f.class64 { 8 } else { 4 };
    let cpu = match (f.class64, f.big) {
        (true, false) => *r.pick(&[0x0100_0007u64, 0x0100_000c]),
        (true, true) => 0x0100_0012,
        (false, false) => *r.pick(&[7u64, 12]),
        (false, true) => 18,
    };
    let hsize = if f.class64 { 32 } else { 28 };
    let segsize = if f.class64 { 72 } else { 56 };
    let secsize = if f.class64 { 80 } else { 68 };
    let cmdsize = segsize + secsize * secs.len();
    let mut o = vec![];
    w.n(&mut o, if f.class64 { 0xfeed_facf } else { 0xfeed_face }, 4);
    w.n(&mut o, cpu, 4);
    w.n(&mut o, 3, 4);
    w.n(&mut o, *r.pick(&[2u64, 10]), 4);
    w.n(&mut o, 1, 4);
    w.n(&mut o, cmdsize as u64, 4);
    w.n(&mut o, 0, 4);
    if f.class64 {
        w.n(&mut o, 0, 4);
    }
    let data_at = hsize + cmdsize;
    let total: usize = secs.iter().map(|s| s.1.len()).sum();
    w.n(&mut o, if f.class64 { 0x19 } else { 1 }, 4);
    w.n(&mut o, cmdsize as u64, 4);
    o.extend(b"__DWARF\0\0\0\0\0\0\0\0\0");
    w.n(&mut o, 0x1_0000, a);
    w.n(&mut o, total as u64, a);
    w.n(&mut o, data_at as u64, a);
    w.n(&mut o, total as u64, a);
    w.n(&mut o, 7, 4);
    w.n(&mut o, 3, 4);
    w.n(&mut o, secs.len() as u64, 4);
    w.n(&mut o, 0, 4);
    let mut at = data_at;
    for (n, d) in secs {
        let mut name = format!("__{}", &n[1..]).into_bytes();
        name.resize(16, 0);
        o.extend(name);
        o.extend(b"__DWARF\0\0\0\0\0\0\0\0\0");
        w.n(&mut o, 0x1_0000 + (at - data_at) as u64, a);
        w.n(&mut o, d.len() as u64, a);
        w.n(&mut o, at as u64, 4);
        for v in [0u64, 0, 0, 0x0200_0000, 0, 0] {
            w.n(&mut o, v, 4);
        }
        if f.class64 {
            w.n(&mut o, 0, 4);
        }
        at += d.len();
    }
    assert_eq!(o.len(), data_at);
    for (_, d) in secs {
        o.extend(d);
    }
    o
}

pub fn gen(r: &mut Rng, cfg: &Cfg) -> Native {
    let mut f = File {
        big: r.chance(1, 3),
        class64: r.chance(2, 3),
        info: vec![],
        abbrev: vec![],
        str_: Strings { data: vec![0] },
        line_str: Strings { data: vec![] },
        str_offsets: vec![],
        addr: vec![],
        ranges: vec![],
        rnglists: vec![],
        subs: vec![],
        features: BTreeSet::new(),
        units: 0,
    };
    let n = if cfg.exact { cfg.max_units } else { r.range(1, cfg.max_units) };
    for _ in 0..n {
        unit(&mut f, r, cfg);
    }
    let mut feats = std::mem::take(&mut f.features);
    let mut secs: Vec<(String, Vec<u8>)> = vec![
        (".debug_info".into(), f.info.clone()),
        (".debug_abbrev".into(), f.abbrev.clone()),
        (".debug_str".into(), f.str_.data.clone()),
        (".debug_line_str".into(), f.line_str.data.clone()),
        (".debug_str_offsets".into(), f.str_offsets.clone()),
        (".debug_addr".into(), f.addr.clone()),
        (".debug_ranges".into(), f.ranges.clone()),
        (".debug_rnglists".into(), f.rnglists.clone()),
    ];
    secs.retain(|s| s.0 == ".debug_info" || s.0 == ".debug_abbrev" || !s.1.is_empty());
    r.shuffle(&mut secs);
    // a Mach-O section name holds 16 characters
    let bytes = if !cfg.only_elf && secs.iter().all(|s| s.0.len() < 16) && r.chance(1, 4) {
        feats.insert("Mach-O".into());
        macho(&f, r, &secs)
    } else {
        feats.insert("ELF".into());
        elf(&f, r, &secs, &mut feats)
    };
    Native { bytes, subs: f.subs, features: feats }
}
