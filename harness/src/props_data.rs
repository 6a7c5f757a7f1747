//! D01-D03: data structures and helpers against reference definitions.

use crate::run::{CaseResult, Ctx};
use crate::util::*;
use crate::{ensure, fail};
use mortal::sequence::{Entry, FindResult, SequenceMap};
use mortal::signal::{Signal, SignalSet};
use mortal::util as mu;
use mortal::{ModifierState, Color, Cursor, Key, PrepareConfig, Size, Style, Theme};
use std::collections::BTreeMap;

// ---- D01 ---------------------------------------------------------------------------------------------------

fn rand_key(r: &mut Rng, alpha: &[char]) -> String {
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 | 3 => 2, 4 | 5 => 3, 6 => r.range(3, 6), _ => r.range(0, 12) };
    (0..n).map(|_| *r.pick(alpha)).collect()
}

fn model_find(m: &BTreeMap<String, u32>, k: &str) -> FindResult<u32> {
    let longer = m.keys().any(|x| x.len() > k.len() && x.starts_with(k));
    match (m.get(k), longer) {
        (None, false) => FindResult::NotFound,
        (None, true) => FindResult::Incomplete,
        (Some(v), false) => FindResult::Found(*v),
        (Some(v), true) => FindResult::Undecided(*v),
    }
}

fn same_map(sm: &SequenceMap<String, u32>, m: &BTreeMap<String, u32>, what: &str) -> CaseResult {
    let a: Vec<(String, u32)> = sm.sequences().to_vec();
    let b: Vec<(String, u32)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
    ensure!(a == b, "{}: map holds {:?}, should hold {:?}", what, a, b);
    Ok(())
}

pub fn d01(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.rng.fork();
    let full = ['a', 'b', '\x1b', '[', 'é', '漢', '\u{10ffff}', '\0', '~'];
    let na = r.range(1, full.len());
    let mut alpha = full.to_vec();
    r.shuffle(&mut alpha);
    alpha.truncate(na);
    let mut model: BTreeMap<String, u32> = BTreeMap::new();
    let pairs: Vec<(String, u32)> = (0..r.range(0, 40)).map(|i| (rand_key(&mut r, &alpha), 1000 + i as u32)).collect();
    let mut sm: SequenceMap<String, u32>;
    match r.below(5) {
        0 => sm = SequenceMap::new(),
        1 => sm = SequenceMap::with_capacity(r.below(50)),
        2 => {
            for (k, v) in &pairs { model.entry(k.clone()).or_insert(*v); }
            sm = SequenceMap::from(pairs.clone());
            ctx.count("built from a Vec", 1);
            ctx.note(format!("from vec {:?}", pairs));
            if pairs.len() != model.len() { ctx.count("duplicate keys in construction", 1); }
        }
        3 => {
            for (k, v) in &pairs { model.insert(k.clone(), *v); }
            sm = pairs.iter().cloned().collect();
            ctx.count("built from an iterator", 1);
            ctx.note(format!("from iter {:?}", pairs));
            if pairs.len() != model.len() { ctx.count("duplicate keys in construction", 1); }
        }
        _ => sm = SequenceMap::default(),
    }
    same_map(&sm, &model, "construction")?;
    let ops = r.range(1, 80);
    for i in 0..ops {
        let k = if !model.is_empty() && r.chance(2) {
            // an existing key, or something near it
            let ks: Vec<&String> = model.keys().collect();
            let base: String = (*r.pick(&ks)).clone();
            match r.below(4) {
                0 | 1 => base,
                2 => { let mut b: Vec<char> = base.chars().collect(); b.pop(); b.into_iter().collect() }
                _ => format!("{}{}", base, r.pick(&alpha)),
            }
        } else { rand_key(&mut r, &alpha) };
        let v = i as u32;
        ctx.count("operations compared", 1);
        let op = r.below(16);
        ctx.note(format!("op {} {:?}", op, k));
        match op {
            0 | 1 | 2 => {
                let (a, b) = (sm.insert(k.clone(), v), model.insert(k.clone(), v));
                ensure!(a == b, "insert({:?}) returned {:?}, should be {:?}", k, a, b);
            }
            3 => {
                let (a, b) = (sm.remove(&k), model.remove_entry(&k));
                ensure!(a == b, "remove({:?}) returned {:?}, should be {:?}", k, a, b);
            }
            4 => { let (a, b) = (sm.get(&k), model.get(&k)); ensure!(a == b, "get({:?}) returned {:?}, should be {:?}", k, a, b); }
            5 => {
                let (a, b) = (sm.get_mut(&k), model.get_mut(&k));
                ensure!(a == b, "get_mut({:?}) returned {:?}, should be {:?}", k, a, b);
                if let (Some(a), Some(b)) = (a, b) { *a += 7; *b += 7; }
            }
            6 | 7 => {
                let (a, b) = (sm.find(&k).cloned(), model_find(&model, &k));
                ensure!(a == b, "find({:?}) is {:?}, should be {:?}; keys {:?}", k, a, b, model.keys());
                ctx.count(match b { FindResult::NotFound => "find NotFound", FindResult::Incomplete => "find Incomplete",
                    FindResult::Undecided(_) => "find Undecided", FindResult::Found(_) => "find Found" }, 1);
            }
            8 => {
                let a = *sm.entry(k.clone()).or_insert(v);
                let b = *model.entry(k.clone()).or_insert(v);
                ensure!(a == b, "entry({:?}).or_insert gave {}, should be {}", k, a, b);
            }
            9 => {
                let mut called = false;
                let a = { let x = sm.entry(k.clone()).or_insert_with(|| { called = true; v }); *x += 3; *x };
                let was = model.contains_key(&k);
                let b = { let x = model.entry(k.clone()).or_insert(v); *x += 3; *x };
                ensure!(a == b && called != was, "entry({:?}).or_insert_with gave {} (closure called: {}), should be {}", k, a, called, b);
            }
            10 => {
                let mut n = 0;
                let a = *sm.entry(k.clone()).and_modify(|x| { *x ^= 1; n += 1; }).or_insert(v);
                let was = model.contains_key(&k);
                let b = *model.entry(k.clone()).and_modify(|x| *x ^= 1).or_insert(v);
                ensure!(a == b && n == was as u32, "entry({:?}).and_modify.or_insert gave {} ({} calls), should be {}", k, a, n, b);
            }
            11..=14 => {
                let was = model.get(&k).copied();
                let e = sm.entry(k.clone());
                ensure!(e.key() == &k, "Entry::key is {:?} for {:?}", e.key(), k);
                match e {
                    Entry::Vacant(e) => {
                        ensure!(was.is_none(), "entry({:?}) is vacant but the key has value {:?}", k, was);
                        ensure!(e.key() == &k, "VacantEntry::key");
                        if op == 11 { ensure!(e.into_key() == k, "VacantEntry::into_key"); }
                        else {
                            let x = e.insert(v);
                            ensure!(*x == v, "VacantEntry::insert refers to {} not {}", x, v);
                            *x += 1;
                            model.insert(k.clone(), v + 1);
                        }
                    }
                    Entry::Occupied(mut e) => {
                        ensure!(was == Some(*e.get()), "entry({:?}) has value {}, should be {:?}", k, e.get(), was);
                        ensure!(e.key() == &k, "OccupiedEntry::key is {:?}", e.key());
                        // several calls on the same entry
                        let mut was = was;
                        for j in 0..r.below(3) {
                            let w = v + 500 + j as u32;
                            if r.chance(2) { let o = e.insert(w); ensure!(Some(o) == was, "OccupiedEntry::insert returned {}, should be {:?}", o, was); } else { *e.get_mut() = w; }
                            was = Some(w);
                            model.insert(k.clone(), w);
                            ensure!(was == Some(*e.get()) && e.key() == &k, "OccupiedEntry of {:?} now has {:?} {}, should be {:?}", k, e.key(), e.get(), was);
                            ctx.count("entries used again", 1);
                        }
                        match r.below(5) {
                            0 => { let o = e.insert(v); ensure!(Some(o) == was, "OccupiedEntry::insert returned {}", o); model.insert(k.clone(), v); }
                            1 => { let o = e.remove(); ensure!(Some(o) == was, "OccupiedEntry::remove returned {}", o); model.remove(&k); }
                            2 => { let o = e.remove_entry(); ensure!((o.0 == k) && Some(o.1) == was, "OccupiedEntry::remove_entry returned {:?}", o); model.remove(&k); }
                            3 => { *e.get_mut() = v; model.insert(k.clone(), v); }
                            _ => { let x = e.into_mut(); ensure!(Some(*x) == was, "into_mut"); *x = v; model.insert(k.clone(), v); }
                        }
                    }
                }
            }
            _ => {
                for p in sm.sequences_mut() { p.1 = p.1.wrapping_mul(3); }
                for v in model.values_mut() { *v = v.wrapping_mul(3); }
                let c = sm.clone();
                same_map(&c, &model, "clone")?;
            }
        }
        same_map(&sm, &model, "after operation")?;
    }
    // Every prefix of every key, and a neighbour of each
    let keys: Vec<String> = model.keys().cloned().collect();
    for k in keys.iter().chain(std::iter::once(&String::new())) {
        let idx: Vec<usize> = k.char_indices().map(|x| x.0).chain(std::iter::once(k.len())).collect();
        for i in idx {
            let p = &k[..i];
            let (a, b) = (sm.find(p).cloned(), model_find(&model, p));
            ensure!(a == b, "find({:?}) is {:?}, should be {:?}; keys {:?}", p, a, b, model.keys());
            ctx.count("prefixes classified", 1);
        }
    }
    ctx.max("max keys in map", model.len() as u64);
    let h = ctx.trace_hash();
    ctx.distinct(h);
    ctx.sample_trace();
    Ok(())
}

// ---- D02 ---------------------------------------------------------------------------------------------------

pub const SIGNALS: [Signal; 6] = [Signal::Break, Signal::Continue, Signal::Interrupt, Signal::Resize, Signal::Suspend, Signal::Quit];

fn mk(m: u8) -> SignalSet {
    let mut s = SignalSet::new();
    for (i, g) in SIGNALS.iter().enumerate() { if m >> i & 1 == 1 { s.insert(*g); } }
    s
}
fn is(s: SignalSet, m: u8, what: &str) -> CaseResult {
    for (i, g) in SIGNALS.iter().enumerate() {
        ensure!(s.contains(*g) == (m >> i & 1 == 1), "{}: contains({:?}) is {}; set should be {:06b}", what, g, s.contains(*g), m);
    }
    ensure!(s == mk(m), "{}: not equal to the set built by insertion, {:06b}", what, m);
    ensure!(s.is_empty() == (m == 0), "{}: is_empty is {} for {:06b}", what, s.is_empty(), m);
    Ok(())
}

pub fn d02(ctx: &mut Ctx) -> CaseResult {
    let a = (ctx.idx % 64) as u8;
    let sa = mk(a);
    is(sa, a, "insert")?;
    if a == 0 {
        is(SignalSet::new(), 0, "new")?;
        is(SignalSet::default(), 0, "default")?;
        is(SignalSet::all(), 63, "all")?;
    }
    is(sa.inverse(), !a & 63, "inverse")?;
    is(!sa, !a & 63, "!")?;
    let names: Vec<String> = SIGNALS.iter().enumerate().filter(|(i, _)| a >> i & 1 == 1).map(|(_, s)| format!("{:?}", s)).collect();
    let dbg = format!("{:?}", sa);
    // a formatter that takes only so much
    struct Full(usize);
    impl std::fmt::Write for Full {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if s.len() > self.0 { self.0 = 0; return Err(std::fmt::Error); }
            self.0 -= s.len();
            Ok(())
        }
    }
    for n in 0..=dbg.len() {
        let res = std::fmt::Write::write_fmt(&mut Full(n), format_args!("{:?}", sa));
        ensure!(res.is_ok() == (n == dbg.len()), "debug output of {} into {} bytes returned {:?}", dbg, n, res);
    }
    ensure!(dbg == format!("SignalSet({})", names.join(" | ")), "debug output {:?} for {:06b}", dbg, a);
    for (i, &g) in SIGNALS.iter().enumerate() {
        let bit = 1u8 << i;
        let mut s = sa; s.insert(g); is(s, a | bit, "insert")?;
        let mut s = sa; s.remove(g); is(s, a & !bit, "remove")?;
        for on in [true, false] { let mut s = sa; s.set(g, on); is(s, if on { a | bit } else { a & !bit }, "set")?; }
        is(SignalSet::from(g), bit, "from signal")?;
        is(!g, !bit & 63, "!signal")?;
        for (j, &h) in SIGNALS.iter().enumerate() { is(g | h, bit | 1 << j, "signal | signal")?; }
        let mut s = sa; s.extend(vec![g]); is(s, a | bit, "extend")?;
        ctx.count("single-signal operations", 6);
    }
    for b in 0..64u8 {
        let sb = mk(b);
        is(sa.union(sb), a | b, "union")?;
        is(sa | sb, a | b, "|")?;
        is(sa.intersection(sb), a & b, "intersection")?;
        is(sa & sb, a & b, "&")?;
        is(sa.difference(sb), a & !b, "difference")?;
        is(sa - sb, a & !b, "-")?;
        is(sa.symmetric_difference(sb), a ^ b, "symmetric_difference")?;
        is(sa ^ sb, a ^ b, "^")?;
        let mut s = sa; s |= sb; is(s, a | b, "|=")?;
        let mut s = sa; s &= sb; is(s, a & b, "&=")?;
        let mut s = sa; s -= sb; is(s, a & !b, "-=")?;
        let mut s = sa; s ^= sb; is(s, a ^ b, "^=")?;
        ensure!((sa == sb) == (a == b) && (sa != sb) == (a != b), "equality of {:06b} and {:06b}", a, b);
        ensure!(sa.contains_all(sb) == (a & b == b), "contains_all of {:06b} and {:06b}", a, b);
        ensure!(sa.intersects(sb) == (a & b != 0), "intersects of {:06b} and {:06b}", a, b);
        let mut list: Vec<Signal> = SIGNALS.iter().enumerate().filter(|(i, _)| b >> i & 1 == 1).map(|(_, s)| *s).collect();
        let twice = list.clone();
        list.extend(twice.into_iter().rev());
        is(list.iter().copied().collect(), b, "from_iter")?;
        let mut s = sa; s.extend(list); is(s, a | b, "extend")?;
        ctx.count("set pairs compared", 1);
    }
    ctx.distinct(a as u64);
    ctx.sample = Some(format!("{} against every set and signal", dbg));
    Ok(())
}

// ---- D03 ---------------------------------------------------------------------------------------------------

pub fn d03_key(ch: char) -> Key {
    match ch {
        '\x1b' => Key::Escape,
        '\x7f' => Key::Backspace,
        '\r' | '\n' => Key::Enter,
        '\t' => Key::Tab,
        '\0'..='\x1f' => Key::Ctrl(char::from(b"@abcdefghijklmnopqrstuvwxyz[\\]^_"[ch as usize])),
        c => Key::Char(c),
    }
}

pub fn d03(ctx: &mut Ctx) -> CaseResult {
    const CHUNK: u32 = 4096;
    let chunks = 0x110000 / CHUNK as u64;
    if ctx.idx < chunks {
        for cp in ctx.idx as u32 * CHUNK..(ctx.idx as u32 + 1) * CHUNK {
            let ch = match char::from_u32(cp) { Some(c) => c, None => continue };
            ctx.count("characters classified", 1);
            ensure!(mu::is_ctrl(ch) == (cp < 32), "is_ctrl({:?}) is {}", ch, mu::is_ctrl(ch));
            ensure!(Key::from(ch) == d03_key(ch), "Key::from({:?}) is {:?}, documented {:?}", ch, Key::from(ch), d03_key(ch));
            ensure!(mu::char_width(ch) == unicode_width::UnicodeWidthChar::width(ch), "char_width({:?})", ch);
            ensure!(mu::is_combining_mark(ch) == unicode_normalization::char::is_combining_mark(ch), "is_combining_mark({:?})", ch);
            if cp < 32 {
                let (u, l) = (mu::unctrl_upper(ch), mu::unctrl_lower(ch));
                ensure!(u == char::from(b'@' + cp as u8), "unctrl_upper({:?}) is {:?}", ch, u);
                ensure!(l == char::from(b'@' + cp as u8).to_ascii_lowercase(), "unctrl_lower({:?}) is {:?}", ch, l);
                ensure!(mu::ctrl(u) == ch && mu::ctrl(l) == ch, "ctrl does not undo unctrl of {:?}", ch);
            }
            if (0x40..0x80).contains(&cp) && cp != 0x7f {
                let c = mu::ctrl(ch);
                ensure!(c as u32 == cp & 31 && mu::is_ctrl(c), "ctrl({:?}) is {:?}", ch, c);
            }
            let mut b = [0; 4];
            let s: &str = ch.encode_utf8(&mut b);
            let p: Vec<&str> = mu::prefixes(s).collect();
            ensure!(p == [s], "prefixes({:?}) is {:?}", s, p);
        }
        ctx.distinct(ctx.idx);
        return Ok(());
    }
    let mut r = ctx.rng.fork();
    // prefixes
    let n = r.below(30);
    let s: String = (0..n).map(|_| *r.pick(&['a', 'é', '漢', '😀', '\0', '\u{301}', '\x1b'])).collect();
    let want: Vec<&str> = s.char_indices().map(|(i, c)| &s[..i + c.len_utf8()]).collect();
    let got: Vec<&str> = mu::prefixes(&s).collect();
    ensure!(got == want, "prefixes({:?}) is {:?}", s, got);
    ctx.count("strings split into prefixes", 1);
    let mut it = mu::prefixes(&s);
    for _ in 0..n { it.next(); }
    ensure!(it.next().is_none() && it.next().is_none(), "prefixes({:?}) continues after its end", s);
    // geometry
    let size = Size{lines: r.range(1, 12), columns: r.range(1, 12)};
    let mut pos = Cursor::first();
    ensure!(pos == Cursor{line: 0, column: 0} && pos == Cursor::default(), "first cell is {:?}", pos);
    ensure!(pos.previous(size).is_none(), "a cell before the first: {:?}", pos.previous(size));
    let mut count = 1;
    for l in 0..size.lines {
        for c in 0..size.columns {
            if (l, c) == (0, 0) { continue; }
            let n = pos.next(size);
            ensure!(n == Some(Cursor{line: l, column: c}), "{:?} in {:?} is followed by {:?}", pos, size, n);
            let n = n.unwrap();
            ensure!(n.previous(size) == Some(pos), "{:?} in {:?} is preceded by {:?}", n, size, n.previous(size));
            ensure!(!n.is_out_of_bounds(size), "{:?} is out of bounds of {:?}", n, size);
            pos = n;
            count += 1;
        }
    }
    ensure!(pos.next(size).is_none(), "{:?} is followed by {:?} in {:?}", pos, pos.next(size), size);
    ensure!(Cursor::last(size) == pos, "the last cell of {:?} is {:?}", size, Cursor::last(size));
    ensure!(size.area() == count && size.checked_area() == Some(count), "area of {:?}", size);
    ctx.count("screen sizes enumerated", 1);
    // extreme sizes
    let dim = |r: &mut Rng| match r.below(5) { 0 => 1, 1 => usize::MAX, 2 => 1 << 32, 3 => usize::MAX / 2 + r.below(3), _ => r.range(1, 70000) };
    let big = Size{lines: dim(&mut r), columns: dim(&mut r)};
    let wide = big.lines as u128 * big.columns as u128;
    ensure!(big.checked_area() == usize::try_from(wide).ok(), "checked_area of {:?} is {:?}", big, big.checked_area());
    let in_big = |r: &mut Rng, n: usize| match r.below(4) { 0 => 0, 1 => n - 1, 2 => n / 2, _ => r.next() as usize % n };
    for _ in 0..20 {
        let p = Cursor{line: in_big(&mut r, big.lines), column: in_big(&mut r, big.columns)};
        let want = if p.column + 1 < big.columns { Some(Cursor{line: p.line, column: p.column + 1}) }
            else if p.line + 1 < big.lines { Some(Cursor{line: p.line + 1, column: 0}) } else { None };
        ensure!(p.next(big) == want, "{:?} in {:?} is followed by {:?}", p, big, p.next(big));
        if let Some(q) = want { ensure!(q.previous(big) == Some(p), "{:?} in {:?} is preceded by {:?}", q, big, q.previous(big)); }
        ensure!(!p.is_out_of_bounds(big), "{:?} is out of bounds of {:?}", p, big);
        let (ol, oc) = (r.chance(2), r.chance(2));
        let q = Cursor{line: if ol { big.lines } else { p.line }, column: if oc { big.columns } else { p.column }};
        ensure!(q.is_out_of_bounds(big) == (ol || oc), "is_out_of_bounds of {:?} in {:?} is {}", q, big, !(ol || oc));
        let c: Cursor = (p.line, p.column).into();
        ensure!(c == p, "Cursor from ({}, {}) is {:?}", p.line, p.column, c);
        ctx.count("cursor positions compared", 1);
    }
    // themes
    let cs = [None, Some(Color::Black), Some(Color::Blue), Some(Color::Cyan), Some(Color::Green), Some(Color::Magenta), Some(Color::Red), Some(Color::White), Some(Color::Yellow)];
    let (f, b) = (*r.pick(&cs), *r.pick(&cs));
    let st = if r.chance(3) { None } else { Some(Style::from_bits_truncate(r.below(16) as u8)) };
    let t = Theme::new(f, b, st);
    let want = st.unwrap_or(Style::empty());
    ensure!((t.fg, t.bg, t.style) == (f, b, want), "Theme::new({:?}, {:?}, {:?}) is {:?}", f, b, st, t);
    // the flags are flags
    let styles = [Style::BOLD, Style::ITALIC, Style::REVERSE, Style::UNDERLINE];
    let mods = [ModifierState::ALT, ModifierState::CTRL, ModifierState::SHIFT];
    for (i, a) in styles.iter().enumerate() {
        ensure!(!a.is_empty() && a.bits().count_ones() == 1, "style {} is {:?}", i, a);
        for b in &styles[..i] { ensure!(!a.intersects(*b), "styles {:?} and {:?} overlap", a, b); }
    }
    for (i, a) in mods.iter().enumerate() {
        ensure!(!a.is_empty() && a.bits().count_ones() == 1, "modifier {} is {:?}", i, a);
        for b in &mods[..i] { ensure!(!a.intersects(*b), "modifiers {:?} and {:?} overlap", a, b); }
    }
    let d = Theme::default();
    ensure!((d.fg, d.bg, d.style) == (None, None, Style::empty()), "Theme::default() is {:?}", d);
    let (f2, b2, s2) = (*r.pick(&cs), *r.pick(&cs), Style::from_bits_truncate(r.below(16) as u8));
    let t1 = t.fg(f2);
    ensure!((t1.fg, t1.bg, t1.style) == (f2, b, want), "Theme::fg gives {:?}", t1);
    let t2 = t.bg(b2);
    ensure!((t2.fg, t2.bg, t2.style) == (f, b2, want), "Theme::bg gives {:?}", t2);
    let t3 = t.style(s2);
    ensure!((t3.fg, t3.bg, t3.style) == (f, b, s2), "Theme::style gives {:?}", t3);
    let t4 = t.style(None);
    ensure!((t4.fg, t4.bg, t4.style) == (f, b, Style::empty()), "Theme::style(None) gives {:?}", t4);
    let p = PrepareConfig::default();
    if !(p.block_signals && !p.enable_control_flow && p.enable_keypad && !p.enable_mouse && !p.always_track_motion && p.report_signals.is_empty()) {
        fail!("PrepareConfig::default() is {:?}", p);
    }
    ctx.count("themes compared", 1);
    ctx.distinct(combine(hash_str(&s), combine(wide as u64, size.lines as u64 * 100 + size.columns as u64)));
    ctx.sample = Some(format!("prefixes of {:?}; every cell of {:?}; positions in {:?}", s, size, big));
    Ok(())
}
