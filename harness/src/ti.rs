//! Terminal types of our own: variations of installed ones, written as terminfo entries into the scratch directory.
//! The library is to work with every terminal type, not just with those that happen to be installed.

use crate::util::*;
use std::collections::BTreeMap;
use std::path::Path;

// positions in a terminfo entry, in the order of term.h
pub const CLEAR: usize = 5; pub const EL: usize = 6; pub const ED: usize = 7;
pub const BOLD: usize = 27; pub const SITM: usize = 311; pub const RITM: usize = 321; pub const REV: usize = 34;
pub const SMUL: usize = 36; pub const RMUL: usize = 44; pub const SGR0: usize = 39;
pub const SETAF: usize = 359; pub const SETAB: usize = 360;
pub const SMKX: usize = 89; pub const RMKX: usize = 88; pub const SMCUP: usize = 28; pub const RMCUP: usize = 40;
pub const CIVIS: usize = 13; pub const CNORM: usize = 16; pub const CVVIS: usize = 20;
pub const CUU1: usize = 19; pub const CUF1: usize = 17; pub const CUB1: usize = 14;
pub const CUU: usize = 114; pub const CUD: usize = 107; pub const CUF: usize = 112; pub const CUB: usize = 111;
pub const CUP: usize = 10;
pub const KEYS: [usize; 22] = [87, 61, 79, 83, 76, 164, 81, 82, 59, 77, 66, 68, 69, 70, 71, 72, 73, 74, 75, 67, 216, 217];
const BCE: usize = 28; const AM: usize = 1; const XENL: usize = 4;

#[derive(Clone)]
pub struct Entry { names: Vec<u8>, bools: Vec<u8>, nums: Vec<i32>, strs: BTreeMap<usize, Vec<u8>> }

impl Entry {
    fn installed(name: &str) -> Entry {
        let c = name.chars().next().unwrap();
        let b = ["/etc/terminfo", "/lib/terminfo", "/usr/share/terminfo"].iter()
            .flat_map(|d| [format!("{}/{}/{}", d, c, name), format!("{}/{:x}/{}", d, c as u32, name)])
            .find_map(|p| std::fs::read(p).ok()).unwrap_or_else(|| panic!("harness: no terminfo entry {}", name));
        let w = |i: usize| i16::from_le_bytes([b[i], b[i + 1]]);
        let wide = w(0) == 0o1036;
        assert!(wide || w(0) == 0o432, "harness: terminfo entry {}", name);
        let (nn, nb, nu, ns) = (w(2) as usize, w(4) as usize, w(6) as usize, w(8) as usize);
        let mut p = 12;
        let names = b[p..p + nn].to_vec();
        p += nn;
        let bools = b[p..p + nb].to_vec();
        p += nb;
        p += p % 2;
        let k = if wide { 4 } else { 2 };
        let nums = (0..nu).map(|i| if wide { i32::from_le_bytes([b[p + 4 * i], b[p + 4 * i + 1], b[p + 4 * i + 2], b[p + 4 * i + 3]]) } else { w(p + 2 * i) as i32 }).collect();
        p += nu * k;
        let t = p + ns * 2;
        let mut strs = BTreeMap::new();
        for i in 0..ns {
            let o = w(p + 2 * i);
            if o >= 0 { strs.insert(i, b[t + o as usize..].iter().copied().take_while(|c| *c != 0).collect()); }
        }
        Entry{names, bools, nums, strs}
    }
    fn write(&self, dir: &Path, name: &str) {
        let mut names = name.as_bytes().to_vec();
        names.extend(b"|made for a test\0");
        let ns = self.strs.keys().last().map_or(0, |k| k + 1);
        let mut table = Vec::new();
        let mut offs = vec![-1i16; ns];
        for (k, v) in &self.strs { offs[*k] = table.len() as i16; table.extend(v); table.push(0); }
        let mut b: Vec<u8> = Vec::new();
        for w in [0o432i16, names.len() as i16, self.bools.len() as i16, self.nums.len() as i16, ns as i16, table.len() as i16] { b.extend(w.to_le_bytes()); }
        b.extend(&names);
        b.extend(&self.bools);
        if b.len() % 2 == 1 { b.push(0); }
        for n in &self.nums { b.extend((*n.min(&32767) as i16).to_le_bytes()); }
        for o in offs { b.extend(o.to_le_bytes()); }
        b.extend(&table);
        let d = dir.join(&name[..1]);
        std::fs::create_dir_all(&d).expect("harness: terminfo directory");
        std::fs::write(d.join(name), b).expect("harness: terminfo entry");
        let _ = &self.names;
    }
    fn set(&mut self, k: usize, v: &[u8]) { self.strs.insert(k, v.to_vec()); }
    fn del(&mut self, k: usize) { self.strs.remove(&k); }
}

/// Key strings with everything that makes decoding hard: common prefixes, one key the beginning of another, many bytes.
fn keys(e: &mut Entry, r: &mut Rng) {
    let mut used: Vec<Vec<u8>> = Vec::new();
    let alphabet: &[u8] = if r.chance(2) { b"OAB" } else { b"[O12~ABC;" };
    for k in KEYS {
        if r.chance(6) { if r.chance(2) { e.del(k); } continue; }
        let s: Vec<u8> = match r.below(8) {
            // grow one we have
            0..=3 if !used.is_empty() => { let mut s = r.pick(&used).clone(); for _ in 0..r.range(1, 2) { s.push(*r.pick(alphabet)); } s }
            // cut one we have
            4 if !used.is_empty() => { let s = r.pick(&used).clone(); let n = r.range(1, s.len()); s[..n].to_vec() }
            5 if r.chance(3) => vec![*r.pick(&[0x08u8, 0x0b, 0x0c, 0x0a, 0x1e, 0x7f, 0x01])],
            6 if r.chance(3) => { let mut s = vec![r.range(1, 26) as u8]; s.push(*r.pick(b"@AOK")); s.push(b'\r'); s }
            _ => { let mut s = vec![0x1b]; let top = *r.pick(&[1, 2, 3, 6]); for _ in 0..r.range(1, top) { s.push(*r.pick(alphabet)); } s }
        };
        if s.len() > 10 || s.starts_with(b"\x1b[<") || s == b"\x1b" || s.starts_with(b"\x1b[I") { continue; }
        e.set(k, &s);
        used.push(s);
    }
    if r.chance(4) { e.set(*r.pick(&KEYS), b"\x1b\xc3\xa9"); }
    if r.chance(6) { e.set(*r.pick(&KEYS), b""); }
}

/// Leaves out or rewords what a terminal may well do without.
fn output(e: &mut Entry, r: &mut Rng) {
    if r.chance(4) { e.bools.resize(e.bools.len().max(BCE + 1), 0); e.bools[BCE] ^= 1; }
    for k in [BOLD, REV, SMKX, CIVIS, CVVIS, EL, ED, CUU1, CUF1, CUB1, CUU, CUD, CUF, CUB, RITM, RMUL] {
        // some scroll when told to go up by one
        if k == CUU && e.strs.get(&CUU1).map_or(true, |s| s.starts_with(b"\x1bM")) { continue; }
        if r.chance(10) { e.del(k); } }
    if r.chance(8) { e.del(SMUL); if r.chance(2) { e.del(RMUL); } }
    if r.chance(8) { e.del(SITM); if r.chance(2) { e.del(RITM); } }
    if r.chance(4) { e.set(SITM, b"\x1b[3m"); match r.below(4) { 0 => e.del(RITM), 1 => e.set(RITM, b"\x1b[m"), _ => e.set(RITM, b"\x1b[23m") } }
    if r.chance(4) { e.set(SMUL, b"\x1b[4m"); match r.below(4) { 0 => e.del(RMUL), 1 => e.set(RMUL, b"\x1b[m"), _ => e.set(RMUL, b"\x1b[24m") } }
    if r.chance(6) { e.del(SETAF); e.del(SETAB); }
    else if r.chance(6) { e.del(*r.pick(&[SETAF, SETAB])); }
    else if r.chance(3) { e.set(SETAF, b"\x1b[3%p1%dm"); e.set(SETAB, b"\x1b[4%p1%dm"); }
    if r.chance(8) { for k in [BOLD, SITM, RITM, REV, SMUL, RMUL, SETAF, SETAB, SGR0] { e.del(k); } }
    if r.chance(8) { e.del(SMCUP); e.del(RMCUP); }
    if r.chance(8) { e.del(SMKX); e.del(RMKX); }
    if r.chance(8) { for k in [CIVIS, CNORM, CVVIS] { e.del(k); } }
    // what happens at the right edge
    match r.below(6) { 0 => { e.bools[AM] = 0; } 1 => { e.bools[XENL] = 0; } _ => () }
    // padding, which is not to be printed
    for k in [CLEAR, EL, ED, CUP, SGR0, BOLD, SMKX, SMCUP] {
        if r.chance(12) {
            let pad: &[u8] = *r.pick(&[&b"$<5>"[..], b"$<50/>", b"$<2*>", b"$<1.5*/>", b"$<5>$<10/>"]);
            if let Some(s) = e.strs.get_mut(&k) { if !s.windows(2).any(|w| w == b"$<") { s.extend(pad); } }
        }
    }
}

const BASES: &[&str] = &["xterm", "xterm-256color", "linux", "screen", "tmux", "rxvt", "rxvt-unicode", "vt100", "vt220", "xterm-color", "Eterm", "hurd"];
pub const VARIANTS: usize = 160;

pub fn names() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| (0..VARIANTS).map(|i| {
        let b = BASES[i % BASES.len()];
        let s = if b.starts_with("xterm") { format!("xterm-made-{}", i) } else { format!("made-{}-{}", b, i) };
        &*Box::leak(s.into_boxed_str())
    }).collect())
}

/// Output that no terminal type uses
pub const MARK: &[u8] = b"\x1b[777;777i";
const BREAK: &[(usize, &str)] = &[(CLEAR, "clear"), (EL, "el"), (ED, "ed"), (BOLD, "bold"), (SITM, "sitm"), (RITM, "ritm"), (REV, "rev"), (SMUL, "smul"),
    (RMUL, "rmul"), (SGR0, "sgr0"), (SETAF, "setaf"), (SETAB, "setab"), (SMKX, "smkx"), (RMKX, "rmkx"), (SMCUP, "smcup"), (RMCUP, "rmcup"),
    (CIVIS, "civis"), (CNORM, "cnorm"), (CUU, "cuu"), (CUU1, "cuu1"), (CUD, "cud"), (CUF, "cuf"), (CUF1, "cuf1"), (CUB, "cub"), (CUB1, "cub1"),
    (CUP, "cup"), (12, "home"), (3, "csr")];

/// Terminal types alike but for one capability: (prints a mark, cannot be expanded, which)
pub fn pairs() -> &'static [(&'static str, &'static str, &'static str)] {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<(&'static str, &'static str, &'static str)>> = OnceLock::new();
    N.get_or_init(|| BREAK.iter().map(|(_, n)| {
        let leak = |s: String| &*Box::leak(s.into_boxed_str());
        (leak(format!("xterm-whole-{}", n)), leak(format!("xterm-broken-{}", n)), *n)
    }).collect())
}

/// Writes them all; the same every time
pub fn write_all(dir: &Path) {
    let base: Vec<Entry> = BASES.iter().map(|b| Entry::installed(b)).collect();
    for (i, n) in names().iter().enumerate() {
        let mut r = Rng::new(0x7e21_0000 + i as u64);
        let mut e = base[i % BASES.len()].clone();
        if i % 3 != 1 { keys(&mut e, &mut r); }
        if i % 3 != 0 { output(&mut e, &mut r); }
        e.write(dir, n);
    }
    write_damaged(dir, &base[0]);
    write_lacking(dir, &base);
    for ((k, _), (whole, bad, _)) in BREAK.iter().zip(pairs()) {
        let mut e = base[0].clone();
        e.set(*k, MARK);
        if *k == CUU1 { e.del(CUU); }
        e.write(dir, whole);
        let mut b = MARK.to_vec();
        b.extend(b"%+");
        e.set(*k, &b);
        e.write(dir, bad);
    }
}

/// Entries that cannot be read (short of those with offsets out of range, which the terminfo crate panics on), each damaged in a way of its own
pub const DAMAGED: [&str; 8] = ["damaged-empty", "damaged-header", "damaged-magic", "damaged-half", "damaged-names", "damaged-end", "damaged-noise", "damaged-directory"];

/// Entries without one of what a Screen cannot do without
pub const LACKING: [&str; 8] = ["xterm-lacks-home", "xterm-lacks-csr", "xterm-lacks-cup", "xterm-lacks-clear", "linux-lacks-home", "linux-lacks-csr", "linux-lacks-cup", "linux-lacks-clear"];

fn write_lacking(dir: &Path, base: &[Entry]) {
    for n in LACKING {
        let mut e = base[if n.starts_with('x') { 0 } else { 2 }].clone();
        e.del(match &n[n.len() - 4..] { "home" => 12, "-csr" => 3, "-cup" => CUP, _ => CLEAR });
        e.write(dir, n);
    }
}

fn write_damaged(dir: &Path, b: &Entry) {
    b.write(dir, "damaged-whole");
    let d = dir.join("d");
    let whole = std::fs::read(d.join("damaged-whole")).expect("harness: terminfo entry");
    for n in DAMAGED {
        let mut e = whole.clone();
        match n {
            "damaged-empty" => e.clear(),
            "damaged-header" => e.truncate(7),
            "damaged-magic" => e[0] ^= 0xff,
            "damaged-half" => e.truncate(whole.len() / 2),
            "damaged-names" => { let k = i16::from_le_bytes([e[2], e[3]]) as usize; for c in &mut e[12..12 + k] { *c = 0xff } }
            "damaged-end" => { let k = e.len(); e.truncate(k - 3); }
            "damaged-noise" => { let mut r = Rng::new(7); for c in &mut e { *c = r.below(256) as u8; } }
            _ => { std::fs::create_dir_all(d.join(n)).expect("harness: terminfo directory"); continue }
        }
        std::fs::write(d.join(n), e).expect("harness: terminfo entry");
    }
}

/// Where those written by the parent process are
pub fn use_dir(dir: &Path) { std::env::set_var("TERMINFO_DIRS", dir); }

pub fn pick(r: &mut Rng) -> &'static str { *r.pick(names()) }
