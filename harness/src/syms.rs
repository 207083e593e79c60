//! Symbols made together with the form in which they must be displayed.
use crate::names;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Sym {
    pub raw: String,
    pub shown: String,
    /// The generic it instantiates, by construction.
    pub generic: Option<String>,
    pub what: &'static str,
}

fn id(r: &mut Rng) -> String {
    let s = names::ident(r);
    if r.chance(1, 3) {
        format!("{}{}", s, r.below(1000))
    } else {
        s
    }
}
fn lp(s: &str) -> String {
    format!("{}{}", s.len(), s)
}

/// A legacy Rust path element: as mangled and as displayed.
fn rust_elem(r: &mut Rng) -> (String, String) {
    if !r.chance(1, 4) {
        let s = id(r);
        return (s.clone(), s);
    }
    let (a, b) = (id(r), id(r));
    match r.below(8) {
        0 => (format!("_$LT${}$u20$as$u20${}$GT$", a, b), format!("<{} as {}>", a, b)),
        1 => (format!("_$LT$$RF${}$u20$as$u20${}..{}$GT$", a, b, a), format!("<&{} as {}::{}>", a, b, a)),
        2 => ("_$u7b$$u7b$closure$u7d$$u7d$".into(), "{{closure}}".into()),
        3 => (format!("{}..{}", a, b), format!("{}::{}", a, b)),
        4 => (format!("_$LT$impl$u20${}$u20$for$u20${}$GT$", a, b), format!("<impl {} for {}>", a, b)),
        5 => (format!("{}$LT${}$C$$BP${}$GT$", a, b, a), format!("{}<{},*{}>", a, b, a)),
        6 => (format!("_$LT$$LP${}$C${}$RP$$GT$", a, b), format!("<({},{})>", a, b)),
        _ => ("_$u7b$$u7b$vtable.shim$u7d$$u7d$".into(), "{{vtable.shim}}".into()),
    }
}
/// The rule for names that are no Rust instantiation.
fn brackets(shown: &str) -> Option<String> {
    let a = shown.find('<')?;
    let b = shown.rfind('>')?;
    if a > 0 && a < b {
        Some(shown[..a].to_string())
    } else {
        None
    }
}

pub fn rust_legacy(r: &mut Rng) -> Sym {
    let n = r.range(1, 4);
    let mut raw = String::from(*r.pick(&["_ZN", "_ZN", "_ZN", "ZN", "__ZN"]));
    let mut shown = vec![];
    for _ in 0..n {
        let (m, d) = rust_elem(r);
        raw.push_str(&lp(&m));
        shown.push(d);
    }
    let base = shown.join("::");
    let hashed = !r.chance(1, 6);
    let mut full = base.clone();
    if hashed {
        let h = format!("h{:016x}", r.u64());
        raw.push_str(&lp(&h));
        full.push_str("::");
        full.push_str(&h);
    }
    raw.push('E');
    match r.below(8) {
        0 => raw.push_str(&format!(".llvm.{:X}", r.u64())),
        1 => {
            let s = format!(".{}", r.below(2000));
            raw.push_str(&s);
            full.push_str(&s);
        }
        _ => {}
    }
    let generic = if hashed { Some(base) } else { brackets(&full) };
    Sym { raw, shown: full, generic, what: "legacy Rust" }
}

/// v0 symbols whose demangling is evident.
pub fn rust_v0(r: &mut Rng) -> Sym {
    let (k, f) = (id(r), id(r));
    let f = if f.starts_with(|c: char| c.is_ascii_digit() || c == '_') { format!("f{}", f) } else { f };
    let us = |s: &str| if s.starts_with(|c: char| c.is_ascii_digit() || c == '_') { format!("{}_{}", s.len(), s) } else { lp(s) };
    match r.below(4) {
        0 => Sym { raw: format!("_RNvC{}{}", us(&k), us(&f)), shown: format!("{}[0]::{}", k, f), generic: None, what: "v0 Rust" },
        1 => Sym { raw: format!("_RNvNtC{}{}{}", us(&k), us("m"), us(&f)), shown: format!("{}[0]::m::{}", k, f), generic: None, what: "v0 Rust" },
        2 => {
            let (c, n) = *r.pick(&[('l', "i32"), ('b', "bool"), ('h', "u8"), ('e', "str"), ('j', "usize")]);
            let raw = format!("_RINvC{}{}{}E", us(&k), us(&f), c);
            let shown = format!("{}[0]::{}::<{}>", k, f, n);
            let generic = brackets(&shown);
            Sym { raw, shown, generic, what: "v0 Rust" }
        }
        _ => Sym { raw: format!("RNvCs_{}{}", us(&k), us(&f)), shown: format!("{}[1]::{}", k, f), generic: None, what: "v0 Rust" },
    }
}

pub fn cpp(r: &mut Rng) -> Sym {
    const T: [(&str, &str); 10] = [("i", "int"), ("c", "char"), ("b", "bool"), ("d", "double"), ("j", "unsigned int"), ("l", "long"), ("x", "long long"), ("Pi", "int*"), ("Rd", "double&"), ("PKc", "char const*")];
    let pre = *r.pick(&["_Z", "_Z", "_Z", "__Z"]);
    let (a, b) = (id(r), id(r));
    let args = |r: &mut Rng| -> (String, String) {
        let n = r.below(3);
        if n == 0 {
            return ("v".into(), String::new());
        }
        // No type twice: a repeated compound one would have to be a substitution.
        let mut v: Vec<usize> = (0..T.len()).collect();
        r.shuffle(&mut v);
        let p: Vec<(&str, &str)> = v[..n].iter().map(|&k| T[k]).collect();
        (p.iter().map(|x| x.0).collect(), p.iter().map(|x| x.1).collect::<Vec<_>>().join(", "))
    };
    let (t, tn) = T[r.below(7)];
    let (raw, shown, what): (String, String, &'static str) = match r.below(9) {
        0 => {
            let (x, y) = args(r);
            (format!("{}{}", lp(&a), x), format!("{}({})", a, y), "C++ function")
        }
        1 => {
            let (x, y) = args(r);
            (format!("N{}{}E{}", lp(&a), lp(&b), x), format!("{}::{}({})", a, b, y), "C++ member")
        }
        2 => (format!("NK{}{}Ev", lp(&a), lp(&b)), format!("{}::{}() const", a, b), "C++ const member"),
        3 => (format!("N{}C{}Ev", lp(&a), r.range(1, 2)), format!("{}::{}()", a, a), "C++ constructor"),
        4 => (format!("N{}D{}Ev", lp(&a), r.range(0, 2)), format!("{}::~{}()", a, a), "C++ destructor"),
        5 => (format!("{}I{}Evv", lp(&a), t), format!("void {}<{}>()", a, tn), "C++ template function"),
        6 => (format!("N{}I{}E{}Ev", lp(&a), t, lp(&b)), format!("{}<{}>::{}()", a, tn, b), "C++ template member"),
        7 => (format!("{}I{}EvT_", lp(&a), t), format!("void {}<{}>({})", a, tn, tn), "C++ template function"),
        _ => (format!("N{}{}EPFvvE", lp(&a), lp(&b)), format!("{}::{}(void (*)())", a, b), "C++ function pointer"),
    };
    let generic = brackets(&shown);
    Sym { raw: format!("{}{}", pre, raw), shown, generic, what }
}

/// Names that no mangling scheme claims.
pub fn ordinary(r: &mut Rng) -> Sym {
    let s = match r.below(10) {
        0 => names::plain(r),
        1 => format!("{}::h{:016x}", names::plain(r), r.u64()),
        2 => format!("<{} as {}>::{}", id(r), id(r), id(r)),
        3 => format!("{}<{}>::{}", id(r), id(r), id(r)),
        4 => format!("{}({}&) const", id(r), id(r)),
        5 => format!("Z{}", id(r)),
        6 => r.pick(&["RC4", "CPRB", "N3fooE", "Foo", "_", "__", "_start", "_initialize", "__wasm_call_ctors", "__heap_base", "_Y", "_GLOBAL", "$foo", "foo@@bar", "?foo@@YAXXZ", "C1", "D0", "St", "operator<", "operator<<", "operator->", "a>b<c", "a<b", "h0123456789abcdef", "::h0123456789abcdef", "foo::h0123456789abcdeg", "foo::h0123456789abcde", "foo::h0123456789abcdef0", "foo::h", "foo::hash", "a<b>::handle", "foo<a::h0123456789abcdef>", "x::h0123456789ABCDEF", "x::h0123456789abcdef.7", "x::h0123456789abcdef::y"]).to_string(),
        7 => format!("{}::{}", names::plain(r), r.pick(&["handle", "hash", "h", "h12", "http_get", "helper.123"])),
        8 => format!("{}.{}", id(r), r.below(100)),
        _ => {
            let t = names::text(r, 12);
            format!("f{}", t.replace(['_', 'R', 'Z'], "-"))
        }
    };
    let generic = crate::graphgen::recognise(&s);
    Sym { raw: s.clone(), shown: s, generic, what: "ordinary" }
}

/// Strings near a mangling: what the demanglers make of them decides.
pub fn near(r: &mut Rng) -> String {
    let base = match r.below(6) {
        0 => rust_legacy(r).raw,
        1 => rust_v0(r).raw,
        2 => cpp(r).raw,
        3 => r
            .pick(&[
                "_Z", "__Z", "_ZN", "_R", "_ZNE", "_ZN3fooE", "_Z3foo", "_ZTV3Foo", "_ZTI3Foo", "_ZTS3Foo", "_ZThn8_N3Foo3barEv", "_ZGVZ3foovE1x", "_GLOBAL__sub_I_a.cpp", "_GLOBAL__I_foo", "_GLOBAL_.I.foo", "_GLOBAL_$I$_Z3foov", "_GLOBAL_.D.foo", "_GLOBAL_$D$foo", "_GLOBAL__D_a", "_GLOBAL_", "_ZN9wee_alloc8size_classE", "_ZZ3foovE1x", "_ZZN3foo3barEvENKUlvE_clEv",
                "_ZN3FooIiEC1ERKS0_", "_ZNSt6vectorIiSaIiEE9push_backERKi", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", "_ZN3FoocvT_IiEEv", "_ZNK3FooeqERKS_", "_ZSt4cout", "_Z1fIJidEEvDpT_", "_Z4foldIJidEEDTplfp_fp_EDpT_", "_ZN12_GLOBAL__N_13fooEv", "_Z3fooILi3EEvv", "_Z3fooDn",
                "_Z1fUa9enable_ifIXLi1EEEv", "_ZN3foo17h0123456789abcdefE.llvm.12AB", "_ZN3foo17h0123456789abcdegE", "_ZN3foo17h0123456789abcdefEv", "_RNvC6_123foo3bar", "_RNCNvC1a1b0", "_RINvNtC3std3mem8align_ofNtNtC3std3mem12DiscriminantE", "_RNvNtNtCs1234_7mycrate3foo3bar", "_RYjNtC1a1b", "_RMC0jE", "_ZcvT_", "_ZN1AcvT_IiEEv",
            ])
            .to_string(),
        4 => {
            let mut s = String::from(*r.pick(&["_Z", "_ZN", "__Z", "_GLOBAL_", "_R", "_ZNK", "_ZTV", "_Z1fI"]));
            const P: [&str; 44] = ["3foo", "1a", "I", "E", "v", "i", "S_", "S0_", "S1_", "T_", "T0_", "P", "K", "R", "O", "N", "St", "Sa", "Ss", "C1", "D2", "L", "Li5E", "J", "Dp", "DpT_", "X", "cl", "fp_", "Z", "Ul", "E_", "F", "M", "A3_", "d", "_", "cv", "pl", "DT", "tl", "B5cxx11", "sr", "0"];
            for _ in 0..r.range(1, 24) {
                s.push_str(*r.pick(&P));
            }
            s
        }
        _ => {
            // long ones: substitutions that double what they stand for, or long names
            let n36 = |mut v: usize| {
                let mut o = vec![];
                loop {
                    o.push(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v % 36]);
                    v /= 36;
                    if v == 0 {
                        break;
                    }
                }
                o.reverse();
                String::from_utf8(o).unwrap()
            };
            match r.below(4) {
                0 => {
                    let n = r.range(2, 40);
                    let mut s = String::from("_Z1fPFvvE");
                    for k in 0..n {
                        let back = if k == 0 { "S_".to_string() } else { format!("S{}_", n36(k * 2 - 1)) };
                        s.push_str(&format!("PF{}{}E", back, back));
                    }
                    s
                }
                1 | 2 => {
                    let n = if r.bool() { r.range(6, 10) } else { r.range(2, 40) };
                    let mut s = String::from("_Z1f1PIiiE");
                    for k in 0..n {
                        let back = n36(k);
                        s.push_str(&format!("S_IS{}_S{}_E", back, back));
                    }
                    s
                }
                _ => {
                    let mut s = String::from(*r.pick(&["_ZN", "_ZNK"]));
                    for _ in 0..r.range(1, 40) {
                        let x = id(r).repeat(r.range(1, 60));
                        s.push_str(&lp(&x));
                    }
                    s.push_str(*r.pick(&["Ev", "Ei", "E"]));
                    s
                }
            }
        }
    };
    if r.chance(1, 3) {
        return base;
    }
    let mut b: Vec<u8> = base.into_bytes();
    for _ in 0..r.below(4) {
        if b.is_empty() {
            break;
        }
        let k = r.below(b.len());
        match r.below(5) {
            0 => {
                b.remove(k);
            }
            1 => b.insert(k, *r.pick(b"_EINSTPKRZ0123456789vCD.$")),
            2 => b[k] = *r.pick(b"_EINSTPKRZ0123456789vCD.$"),
            3 => b.truncate(k),
            _ => {
                let e = (k + r.below(8)).min(b.len());
                let x = b[k..e].to_vec();
                for (i, y) in x.into_iter().enumerate() {
                    b.insert(k + i, y);
                }
            }
        }
    }
    String::from_utf8(b).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
}

pub fn known(r: &mut Rng) -> Sym {
    match r.below(6) {
        0 | 1 => rust_legacy(r),
        2 => rust_v0(r),
        3 | 4 => cpp(r),
        _ => ordinary(r),
    }
}

/// What the demangling libraries make of a name, under the documented rule:
/// Rust first, C++ only for names with a C++ prefix. `None`: the demangled form is too
/// long to be insisted on.
pub fn displayed(s: &str) -> Option<String> {
    use std::fmt::Write;
    struct B(String, bool);
    impl Write for B {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.0.len() + s.len() > 1 << 15 {
                self.1 = true;
                return Err(std::fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    if let Ok(d) = rustc_demangle::try_demangle(s) {
        let mut b = B(String::new(), false);
        return match write!(b, "{}", d) {
            Ok(()) => Some(b.0),
            Err(_) if b.1 => None,
            Err(_) => Some(s.to_string()),
        };
    }
    if !["_Z", "__Z", "_GLOBAL_"].iter().any(|p| s.starts_with(p)) {
        return Some(s.to_string());
    }
    let sym = match cpp_demangle::Symbol::new(s) {
        Ok(x) => x,
        Err(_) => return Some(s.to_string()),
    };
    struct C(B);
    impl cpp_demangle::DemangleWrite for C {
        fn write_string(&mut self, s: &str) -> std::fmt::Result {
            self.0.write_str(s)
        }
    }
    let mut b = C(B(String::new(), false));
    match sym.structured_demangle(&mut b, &cpp_demangle::DemangleOptions::default()) {
        Ok(()) => Some(b.0 .0),
        Err(_) if b.0 .1 => None,
        Err(_) => Some(s.to_string()),
    }
}
