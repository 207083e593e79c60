//! Name pools. `unique` names never collide within one generator run.
use crate::rng::Rng;

/// Arbitrary valid UTF-8 text.
pub fn text(r: &mut Rng, max: usize) -> String {
    let n = r.range(0, max);
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(12) {
            0 => *r.pick(&['"', '\\', '\'', ',', ';', '|', '/', '<', '>', '&']),
            1 => *r.pick(&['┊', '│', '⬑', '⤷', '↳', 'Σ', '─']),
            2 => char::from_u32(r.range(0x80, 0x2ff) as u32).unwrap_or('é'),
            3 => *r.pick(&['😀', '𝒳', '\u{10ffff}', '\u{fffd}', '漢', '\u{202e}', '\u{301}', '\u{feff}']),
            4 => *r.pick(&['(', ')', '[', ']', '{', '}', '*', '+', '?', '.', '^', '$', ' ']),
            _ => char::from(r.range(0x20, 0x7e) as u8),
        };
        s.push(c);
    }
    s
}
/// Text that also holds control characters and line breaks.
pub fn hostile(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    for c in text(r, max).chars() {
        s.push(c);
        if r.chance(1, 4) {
            if r.chance(1, 3) {
                s.push(char::from(r.below(32) as u8));
                continue;
            }
            s.push(*r.pick(&['\n', '\r', '\t', '\0', '\u{1}', '\u{8}', '\u{c}', '\u{1b}', '\u{1f}', '\u{7f}', '\u{85}', '\u{2028}', '\u{2029}', '"', '\\']));
        }
    }
    s
}
pub fn ident(r: &mut Rng) -> String {
    const W: [&str; 24] = [
        "alloc", "free", "main", "run", "parse", "fmt", "drop", "panic", "map", "iter", "write", "read", "handle", "hash", "h", "http", "push", "get", "Vec", "Foo", "bar", "x", "new", "init",
    ];
    let mut s = r.pick(&W).to_string();
    if r.chance(1, 3) {
        s.push('_');
        s.push_str(*r.pick(&W));
    }
    s
}
/// A plain path-like name that is never mangled-looking.
pub fn plain(r: &mut Rng) -> String {
    let mut s = ident(r);
    for _ in 0..r.below(3) {
        s.push_str("::");
        s.push_str(&ident(r));
    }
    s
}
