//! What the harness itself knows about each terminal type, straight from terminfo.

use crate::vt::{Attr, Margin, Vt};
use mortal::{Color, Key, Style};
use terminfo::{capability as cap, Database};

/// Terminal types with cursor addressing, a scrolling region and a home position: full-screen capable.
pub const SCREEN_TERMS: &[&str] = &[
    "xterm", "xterm-256color", "linux", "screen", "screen-256color", "tmux", "tmux-256color", "rxvt",
    "rxvt-unicode", "rxvt-unicode-256color", "rxvt-basic", "vt100", "vt102", "vt220", "Eterm", "hurd", "wsvt25", "wsvt25m",
    "xterm-color", "xterm-mono", "xterm-r5", "xterm-r6", "xterm-vt220", "xterm-xfree86",
    "screen-256color-bce", "screen-bce", "screen-s", "screen-w", "screen.xterm-256color",
];
/// Others with ANSI sequences
pub const LINE_TERMS: &[&str] = &["ansi", "pcansi", "cons25", "cygwin", "mach", "mach-bold", "mach-color", "mach-gnu", "mach-gnu-color", "sun"];
pub const ODD_TERMS: &[&str] = &["dumb", "vt52"];

pub struct Caps {
    pub name: String,
    pub bce: bool,
    pub margin: crate::vt::Margin,
    pub sgr0: Option<Vec<u8>>,
    pub bold: Option<Vec<u8>>,
    pub italic: Option<Vec<u8>>,
    pub reverse: Option<Vec<u8>>,
    pub underline: Option<Vec<u8>>,
    pub colors: bool,
    pub bg_colors: bool,
    pub smkx: Option<Vec<u8>>,
    pub civis: Option<Vec<u8>>,
    pub cnorm: Option<Vec<u8>>,
    pub smcup: Option<Vec<u8>>,
    pub clear: bool,
    pub el: bool,
    pub ed: bool,
    pub cuu1: bool, pub cub1: bool, pub cuf1: bool,
    pub cuu: bool, pub cud: bool, pub cuf: bool, pub cub: bool,
    pub cup: bool,
    pub keys: Vec<(Vec<u8>, Key)>,
    pub xterm: bool,
}

/// Removes terminfo padding marks
pub fn unpad(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'$' && b.get(i + 1) == Some(&b'<') {
            if let Some(j) = b[i..].iter().position(|&c| c == b'>') { i += j + 1; continue; }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

impl Caps {
    pub fn load(name: &str) -> Caps {
        let d = Database::from_name(name).unwrap_or_else(|e| panic!("terminfo entry {}: {:?}", name, e));
        macro_rules! s { ($c:ident) => { d.get::<cap::$c>().map(|c| unpad(c.as_ref())) } }
        let mut keys = Vec::new();
        macro_rules! k { ($($c:ident => $k:expr),* $(,)?) => { $( if let Some(c) = d.get::<cap::$c>() {
            let b: Vec<u8> = c.as_ref().to_vec();
            if b.is_ascii() && !b.is_empty() { keys.retain(|(s, _): &(Vec<u8>, Key)| *s != b); keys.push((b, $k)); }
        } )* } }
        k!(KeyUp => Key::Up, KeyDown => Key::Down, KeyLeft => Key::Left, KeyRight => Key::Right,
            KeyHome => Key::Home, KeyEnd => Key::End, KeyNPage => Key::PageDown, KeyPPage => Key::PageUp,
            KeyDc => Key::Delete, KeyIc => Key::Insert,
            KeyF1 => Key::F(1), KeyF2 => Key::F(2), KeyF3 => Key::F(3), KeyF4 => Key::F(4), KeyF5 => Key::F(5),
            KeyF6 => Key::F(6), KeyF7 => Key::F(7), KeyF8 => Key::F(8), KeyF9 => Key::F(9), KeyF10 => Key::F(10),
            KeyF11 => Key::F(11), KeyF12 => Key::F(12));
        let c = Caps{
            name: name.to_string(),
            bce: d.get::<cap::BackColorErase>().map_or(false, |c| c.into()),
            margin: match (d.get::<cap::AutoRightMargin>().map_or(false, |c| c.into()), d.get::<cap::EatNewlineGlitch>().map_or(false, |c| c.into())) {
                (true, true) => Margin::Wait, (true, false) => Margin::Wrap, _ => Margin::Stay },
            sgr0: s!(ExitAttributeMode),
            bold: s!(EnterBoldMode),
            italic: s!(EnterItalicsMode),
            reverse: s!(EnterReverseMode),
            underline: s!(EnterUnderlineMode),
            colors: d.get::<cap::SetAForeground>().is_some(),
            bg_colors: d.get::<cap::SetABackground>().is_some(),
            smkx: s!(KeypadXmit),
            civis: s!(CursorInvisible),
            cnorm: s!(CursorNormal),
            smcup: s!(EnterCaMode),
            clear: d.get::<cap::ClearScreen>().is_some(),
            el: d.get::<cap::ClrEol>().is_some(),
            ed: d.get::<cap::ClrEos>().is_some(),
            cuu1: d.get::<cap::CursorUp>().is_some(),
            cub1: d.get::<cap::CursorLeft>().is_some(),
            cuf1: d.get::<cap::CursorRight>().is_some(),
            cuu: d.get::<cap::ParmUpCursor>().is_some(),
            cud: d.get::<cap::ParmDownCursor>().is_some(),
            cuf: d.get::<cap::ParmRightCursor>().is_some(),
            cub: d.get::<cap::ParmLeftCursor>().is_some(),
            cup: d.get::<cap::CursorAddress>().is_some(),
            keys,
            xterm: name == "xterm" || name.starts_with("xterm-"),
        };
        c
    }

    pub fn vt(&self, lines: usize, cols: usize) -> Vt {
        let mut v = Vt::new(lines, cols, self.bce);
        if self.name == "vt52" { v.set_vt52(true); }
        if self.name == "sun" { v.ff_clears = true; }
        v
    }

    /// How text with these attributes looks on this terminal type
    pub fn look(&self, fg: Option<Color>, bg: Option<Color>, style: Style) -> Attr {
        let mut v = Vt::new(1, 4, false);
        if style.contains(Style::BOLD) { if let Some(b) = &self.bold { v.feed(b); } }
        if style.contains(Style::ITALIC) { if let Some(b) = &self.italic { v.feed(b); } }
        if style.contains(Style::REVERSE) { if let Some(b) = &self.reverse { v.feed(b); } }
        if style.contains(Style::UNDERLINE) { if let Some(b) = &self.underline { v.feed(b); } }
        let mut a = v.attr;
        if self.colors { a.fg = fg.map(code); }
        if self.bg_colors { a.bg = bg.map(code); }
        a
    }
}

pub fn code(c: Color) -> u16 {
    match c {
        Color::Black => 0, Color::Red => 1, Color::Green => 2, Color::Yellow => 3,
        Color::Blue => 4, Color::Magenta => 5, Color::Cyan => 6, Color::White => 7,
    }
}

pub const COLORS: [Color; 8] = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White];

pub fn rand_color(r: &mut crate::util::Rng) -> Option<Color> {
    if r.chance(3) { None } else { Some(*r.pick(&COLORS)) }
}
pub fn rand_style(r: &mut crate::util::Rng) -> Style {
    match r.below(4) {
        0 => Style::empty(),
        1 => *r.pick(&[Style::BOLD, Style::ITALIC, Style::REVERSE, Style::UNDERLINE]),
        _ => Style::from_bits_truncate(r.below(16) as u8),
    }
}

/// Do two attribute sets look the same on a blank?
pub fn same_blank(a: &Attr, b: &Attr) -> bool {
    if a.reverse != b.reverse || a.underline != b.underline { return false; }
    if a.bg != b.bg && !a.reverse { return false; }
    if a.reverse && a.fg != b.fg { return false; }
    if (a.underline || a.reverse) && (a.fg != b.fg || a.bg != b.bg) { return false; }
    true
}

pub fn caps_cached(name: &str) -> &'static Caps {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static M: Mutex<Option<HashMap<String, &'static Caps>>> = Mutex::new(None);
    let mut g = M.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(c) = m.get(name) { return c; }
    let c: &'static Caps = Box::leak(Box::new(Caps::load(name)));
    m.insert(name.to_string(), c);
    c
}
