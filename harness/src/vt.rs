//! A strict terminal emulator of the ANSI/xterm family.
//!
//! It replays the bytes the library sent to the device and keeps what a user would see: cells, attributes,
//! cursor, modes. Anything it does not understand is recorded as an anomaly.

use unicode_width::UnicodeWidthChar;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Attr {
    /// None is the default colour
    pub fg: Option<u16>,
    pub bg: Option<u16>,
    pub bold: bool,
    pub italic: bool,
    pub underline: bool,
    pub reverse: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    pub text: String,
    /// columns taken; 0 is the hidden part of the wide character to the left
    pub w: usize,
    pub attr: Attr,
}

impl Cell {
    fn blank(bg: Option<u16>) -> Cell { Cell{text: " ".into(), w: 1, attr: Attr{bg, ..Attr::default()}} }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Modes {
    pub alt: bool,
    pub app_cursor: bool,
    pub app_keypad: bool,
    pub hidden: bool,
    pub m1000: bool,
    pub m1002: bool,
    pub m1003: bool,
    pub m1006: bool,
}

impl Modes {
    pub fn mouse(&self) -> bool { self.m1000 || self.m1002 || self.m1003 }
    /// the modes `prepare` is responsible for
    pub fn input_modes(&self) -> (bool, bool, bool, bool, bool, bool) {
        (self.app_cursor, self.app_keypad, self.m1000, self.m1002, self.m1003, self.m1006)
    }
}

/// What happens after a character in the last column
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Margin {
    /// the next character goes to the next line (am, xenl)
    Wait,
    /// the cursor moves to the next line, unless there is none (am)
    Wrap,
    /// the next character replaces it
    Stay,
}

#[derive(Clone, Debug)]
enum St { Ground, Esc, EscInter(u8), Csi(Vec<u8>), Osc }

#[derive(Clone)]
pub struct Vt {
    pub lines: usize,
    pub cols: usize,
    pub cells: Vec<Cell>,
    pub line: usize,
    pub col: usize,
    pub pending: bool,
    pub attr: Attr,
    pub modes: Modes,
    pub bce: bool,
    pub onlcr: bool,
    /// what the half left over of an overwritten wide character looks like: terminals differ (0 its own attributes, 1 none, 2 the current ones)
    pub scrub: u64,
    /// form feed clears the screen (sun console)
    pub ff_clears: bool,
    pub anomalies: Vec<String>,
    /// number of characters printed / control sequences executed / lines scrolled
    pub printed: u64,
    pub seqs: u64,
    pub scrolled: u64,
    /// What was held back for another size is of no consequence until the display is cleared
    pub stale: bool,
    pub margin: Margin,
    pub title_depth: i64,
    /// bytes consumed so far
    pub pos: usize,
    top: usize,
    bot: usize,
    saved: (usize, usize, Attr),
    last: Option<(usize, usize)>,
    st: St,
    utf: Vec<u8>,
    alt_saved: Option<Vec<Cell>>,
    vt52: bool,
    vt52_addr: Vec<u8>,
    /// Cells that characters were written to, if wanted
    pub touched: Option<Vec<usize>>,
}

impl Vt {
    pub fn new(lines: usize, cols: usize, bce: bool) -> Vt {
        Vt{
            lines, cols,
            cells: vec![Cell::blank(None); lines * cols],
            line: 0, col: 0, pending: false,
            attr: Attr::default(), modes: Modes::default(), bce, onlcr: true, scrub: 0, ff_clears: false,
            anomalies: Vec::new(), printed: 0, seqs: 0, scrolled: 0, stale: false, margin: Margin::Wait, title_depth: 0, pos: 0,
            top: 0, bot: lines.saturating_sub(1),
            saved: (0, 0, Attr::default()),
            last: None,
            st: St::Ground, utf: Vec::new(), alt_saved: None, vt52: false, vt52_addr: Vec::new(), touched: None,
        }
    }

    /// First and last line of the scrolling region
    pub fn region(&self) -> (usize, usize) { (self.top, self.bot) }

    pub fn set_vt52(&mut self, on: bool) { self.vt52 = on; }

    /// The terminal was resized: what it shows afterwards is anyone's guess.
    pub fn resize_garbage(&mut self, lines: usize, cols: usize, r: &mut crate::util::Rng) {
        self.lines = lines;
        self.cols = cols;
        self.cells = (0..lines * cols).map(|_| Cell{
            text: (*r.pick(&["#", "%", "q", " ", "?"])).to_string(), w: 1,
            attr: Attr{bg: if r.chance(3) { Some(5) } else { None }, reverse: r.chance(4), ..Attr::default()},
        }).collect();
        self.line = r.below(lines);
        self.col = r.below(cols);
        self.pending = false;
        self.top = 0;
        self.bot = lines - 1;
        self.last = None;
    }

    /// Fills the screen with recognisable content
    pub fn fill(&mut self, r: &mut crate::util::Rng) {
        for c in self.cells.iter_mut() {
            c.text = ((b'a' + r.below(26) as u8) as char).to_string();
            c.w = 1;
        }
    }

    pub fn at(&self, l: usize, c: usize) -> &Cell { &self.cells[l * self.cols + c] }

    pub fn text(&self) -> String {
        let mut s = String::new();
        for l in 0..self.lines {
            for c in 0..self.cols {
                let x = self.at(l, c);
                if x.w > 0 { s.push_str(&x.text); }
            }
            s.push('|');
        }
        s
    }

    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        for c in &self.cells {
            h = crate::util::combine(h, crate::util::hash_str(&c.text) ^ c.w as u64);
            h = crate::util::combine(h, c.attr.fg.map_or(99, |x| x as u64) << 20 | c.attr.bg.map_or(99, |x| x as u64) << 4
                | (c.attr.bold as u64) << 3 | (c.attr.italic as u64) << 2 | (c.attr.underline as u64) << 1 | c.attr.reverse as u64);
        }
        crate::util::combine(h, (self.line as u64) << 32 | self.col as u64)
    }

    fn odd(&mut self, s: String) {
        if self.anomalies.len() < 20 { self.anomalies.push(format!("at byte {}: {}", self.pos, s)); }
    }

    pub fn feed(&mut self, bytes: &[u8]) {
        for &b in bytes { self.byte(b); self.pos += 1; }
    }

    /// In the middle of a sequence or character?
    pub fn incomplete(&self) -> bool { !matches!(self.st, St::Ground) || !self.utf.is_empty() || !self.vt52_addr.is_empty() }

    pub fn byte(&mut self, b: u8) {
        if !self.utf.is_empty() || (matches!(self.st, St::Ground) && b >= 0x80) {
            if !self.utf.is_empty() && b & 0xC0 != 0x80 {
                self.odd(format!("broken UTF-8 character {:02x?} before {:02x}", self.utf, b));
                self.utf.clear();
                return self.byte(b);
            }
            self.utf.push(b);
            match std::str::from_utf8(&self.utf) {
                Ok(s) => {
                    let ch = s.chars().next().unwrap();
                    self.utf.clear();
                    self.print(ch);
                }
                Err(e) if e.error_len().is_some() => {
                    self.odd(format!("invalid UTF-8 {:02x?}", self.utf));
                    self.utf.clear();
                }
                Err(_) => (),
            }
            return;
        }
        if self.vt52 && !self.vt52_addr.is_empty() {
            self.vt52_addr.push(b);
            if self.vt52_addr.len() == 3 {
                let l = (self.vt52_addr[1] as usize).saturating_sub(32);
                let c = (self.vt52_addr[2] as usize).saturating_sub(32);
                self.vt52_addr.clear();
                self.goto(l, c);
            }
            return;
        }
        match std::mem::replace(&mut self.st, St::Ground) {
            St::Ground => match b {
                0x1b => self.st = St::Esc,
                b'\r' => { self.col = 0; self.pending = false; self.last = None; }
                b'\n' => {
                    if self.onlcr { self.col = 0; }
                    self.index();
                }
                0x08 => { self.pending = false; self.col = self.col.saturating_sub(1); self.last = None; self.seqs += 1; }
                b'\t' => {
                    self.last = None;
                    self.col = ((self.col / 8 + 1) * 8).min(self.cols - 1);
                }
                // Shift in: character set G0
                0x0f => (),
                0x0c if self.ff_clears => { self.erase(0, self.lines * self.cols); self.goto(0, 0); self.seqs += 1; }
                0x00..=0x1f | 0x7f => self.odd(format!("control character {:#04x}", b)),
                _ => self.print(b as char),
            },
            St::Esc => self.esc(b),
            St::EscInter(i) => {
                self.seqs += 1;
                match (i, b) {
                    (b'(', b'B') | (b'(', b'0') | (b')', b'B') | (b')', b'0') =>
                        if b == b'0' { self.odd("graphics character set selected".into()) },
                    _ => self.odd(format!("unknown escape ESC {} {}", i as char, b as char)),
                }
            }
            St::Csi(mut p) => {
                if (0x40..=0x7e).contains(&b) {
                    self.seqs += 1;
                    self.csi(&p, b);
                } else if (0x20..=0x3f).contains(&b) && p.len() < 200 {
                    p.push(b);
                    self.st = St::Csi(p);
                } else {
                    self.odd(format!("byte {:#04x} inside control sequence {:?}", b, String::from_utf8_lossy(&p)));
                    if b == 0x1b { self.st = St::Esc; }
                }
            }
            St::Osc => {
                if b == 0x07 || b == 0x1b { self.odd("operating system command".into()); }
                else { self.st = St::Osc; }
            }
        }
    }

    fn esc(&mut self, b: u8) {
        self.seqs += 1;
        if self.vt52 {
            match b {
                b'A' => self.up(1),
                b'B' => self.down(1),
                b'C' => self.right(1),
                b'D' => self.left(1),
                b'H' => self.goto(0, 0),
                b'J' => { let p = self.line * self.cols + self.col; self.erase(p, self.lines * self.cols); self.pending = false; }
                b'K' => { let p = self.line * self.cols + self.col; self.erase(p, (self.line + 1) * self.cols); self.pending = false; }
                b'Y' => self.vt52_addr = vec![b'Y'],
                b'=' => self.modes.app_keypad = true,
                b'>' => self.modes.app_keypad = false,
                _ => self.odd(format!("unknown escape ESC {:?}", b as char)),
            }
            self.last = None;
            return;
        }
        match b {
            b'[' => { self.seqs -= 1; self.st = St::Csi(Vec::new()); }
            b']' => self.st = St::Osc,
            b'(' | b')' => { self.seqs -= 1; self.st = St::EscInter(b); }
            b'7' => self.saved = (self.line, self.col, self.attr),
            b'8' => {
                let (l, c, a) = self.saved;
                self.goto(l, c);
                self.attr = a;
            }
            b'=' => self.modes.app_keypad = true,
            b'>' => self.modes.app_keypad = false,
            b'M' => {
                self.pending = false;
                self.last = None;
                if self.line == self.top { self.scroll_down(); } else { self.line = self.line.saturating_sub(1); }
            }
            b'c' => {
                // Consoles whose terminfo clears the screen with a reset
                self.attr = Attr::default();
                self.top = 0;
                self.bot = self.lines - 1;
                self.erase(0, self.lines * self.cols);
                self.goto(0, 0);
            }
            _ => self.odd(format!("unknown escape ESC {:?}", b as char)),
        }
    }

    fn params(p: &[u8]) -> Option<Vec<Option<usize>>> {
        let mut v = Vec::new();
        let mut cur: Option<usize> = None;
        for &b in p {
            match b {
                b'0'..=b'9' => cur = Some(cur.unwrap_or(0).saturating_mul(10).saturating_add((b - b'0') as usize)),
                b';' => { v.push(cur); cur = None; }
                _ => return None,
            }
        }
        v.push(cur);
        Some(v)
    }

    fn csi(&mut self, p: &[u8], f: u8) {
        let show = || format!("CSI {} {}", String::from_utf8_lossy(p), f as char);
        if let Some(rest) = p.strip_prefix(b"?") {
            let v = match Self::params(rest) { Some(v) => v, None => return self.odd(format!("malformed {}", show())) };
            if f == b'c' { return; } // linux cursor shape
            let on = match f { b'h' => true, b'l' => false, _ => return self.odd(format!("unknown {}", show())) };
            for x in v {
                match x.unwrap_or(0) {
                    1 => self.modes.app_cursor = on,
                    12 | 34 => (),
                    25 => self.modes.hidden = !on,
                    47 | 1047 | 1049 => self.set_alt(on, x == Some(1049)),
                    1000 => self.modes.m1000 = on,
                    1002 => self.modes.m1002 = on,
                    1003 => self.modes.m1003 = on,
                    1006 => self.modes.m1006 = on,
                    _ => self.odd(format!("unknown mode {}", show())),
                }
            }
            return;
        }
        if p.starts_with(b"=") && f == b'C' { return; } // cons25 cursor shape
        let v = match Self::params(p) { Some(v) => v, None => return self.odd(format!("malformed {}", show())) };
        let n1 = |i: usize| v.get(i).copied().flatten().unwrap_or(0).max(1);
        let n0 = |i: usize| v.get(i).copied().flatten().unwrap_or(0);
        match f {
            b'A' => self.up(n1(0)),
            b'B' => self.down(n1(0)),
            b'C' => self.right(n1(0)),
            b'D' => self.left(n1(0)),
            b'G' => { let c = n1(0) - 1; let l = self.line; self.goto(l, c); }
            b'd' => { let l = n1(0) - 1; let c = self.col; self.goto(l, c); }
            b'H' | b'f' => {
                let (l, c) = (n1(0) - 1, n1(1) - 1);
                if l >= self.lines || c >= self.cols { self.odd(format!("cursor sent off screen: {}", show())); }
                self.goto(l, c);
            }
            b'J' => {
                let p = self.line * self.cols + self.col;
                match n0(0) {
                    0 => self.erase(p, self.lines * self.cols),
                    1 => self.erase(0, p + 1),
                    2 => self.erase(0, self.lines * self.cols),
                    _ => self.odd(format!("unknown {}", show())),
                }
                self.pending = false;
            }
            b'K' => {
                let row = self.line * self.cols;
                match n0(0) {
                    0 => self.erase(row + self.col, row + self.cols),
                    1 => self.erase(row, row + self.col + 1),
                    2 => self.erase(row, row + self.cols),
                    _ => self.odd(format!("unknown {}", show())),
                }
                self.pending = false;
            }
            b'r' => {
                let t = n1(0) - 1;
                let b = match v.get(1).copied().flatten() { Some(0) | None => self.lines, Some(x) => x };
                if b > self.lines { self.odd(format!("scroll region beyond screen: {}", show())); }
                let b = b.min(self.lines) - 1;
                if t < b || self.lines == 1 { self.top = t.min(b); self.bot = b; self.goto(0, 0); }
            }
            b'h' | b'l' => if n0(0) != 34 { self.odd(format!("unknown {}", show())) },
            b'm' => self.sgr(&v, show()),
            b't' => match n0(0) {
                22 => self.title_depth += 1,
                23 => self.title_depth -= 1,
                _ => self.odd(format!("unknown {}", show())),
            },
            _ => self.odd(format!("unknown {}", show())),
        }
    }

    fn sgr(&mut self, v: &[Option<usize>], show: String) {
        let mut i = 0;
        while i < v.len() {
            let x = v[i].unwrap_or(0);
            let a = &mut self.attr;
            match x {
                0 => *a = Attr::default(),
                1 => a.bold = true,
                3 => a.italic = true,
                4 => a.underline = true,
                7 => a.reverse = true,
                22 => a.bold = false,
                23 => a.italic = false,
                24 => a.underline = false,
                27 => a.reverse = false,
                10 => (),
                30..=37 => a.fg = Some(x as u16 - 30),
                39 => a.fg = None,
                40..=47 => a.bg = Some(x as u16 - 40),
                49 => a.bg = None,
                90..=97 => a.fg = Some(x as u16 - 82),
                100..=107 => a.bg = Some(x as u16 - 92),
                38 | 48 if v.get(i + 1) == Some(&Some(5)) && v.get(i + 2).map_or(false, |n| n.map_or(false, |n| n < 256)) => {
                    let n = v[i + 2].unwrap() as u16;
                    if x == 38 { a.fg = Some(n) } else { a.bg = Some(n) }
                    i += 2;
                }
                _ => return self.odd(format!("unknown attribute {}", show)),
            }
            i += 1;
        }
    }

    fn set_alt(&mut self, on: bool, save: bool) {
        if on && !self.modes.alt {
            if save { self.saved = (self.line, self.col, self.attr); }
            let blank = vec![Cell::blank(None); self.lines * self.cols];
            self.alt_saved = Some(std::mem::replace(&mut self.cells, blank));
        } else if !on && self.modes.alt {
            let n = self.lines * self.cols;
            match self.alt_saved.take() {
                Some(c) if c.len() == n => self.cells = c,
                _ => self.cells = vec![Cell::blank(None); n],
            }
            if save {
                let (l, c, a) = self.saved;
                self.goto(l, c);
                self.attr = a;
            }
        }
        self.modes.alt = on;
    }

    pub fn goto(&mut self, l: usize, c: usize) {
        self.line = l.min(self.lines - 1);
        self.col = c.min(self.cols - 1);
        self.pending = false;
        self.last = None;
    }

    pub fn up(&mut self, n: usize) {
        let lim = if self.line >= self.top { self.top } else { 0 };
        self.line = self.line.saturating_sub(n).max(lim);
        self.pending = false;
        self.last = None;
    }
    pub fn down(&mut self, n: usize) {
        let lim = if self.line <= self.bot { self.bot } else { self.lines - 1 };
        self.line = self.line.saturating_add(n).min(lim);
        self.pending = false;
        self.last = None;
    }
    pub fn left(&mut self, n: usize) {
        self.col = self.col.saturating_sub(n);
        self.pending = false;
        self.last = None;
    }
    pub fn right(&mut self, n: usize) {
        self.col = self.col.saturating_add(n).min(self.cols - 1);
        self.pending = false;
        self.last = None;
    }

    pub fn erase(&mut self, from: usize, to: usize) {
        let bg = if self.bce { self.attr.bg } else { None };
        if self.stale && from == 0 && to >= self.cells.len() { self.scrolled = 0; self.anomalies.clear(); }
        for i in from..to.min(self.cells.len()) {
            self.unpair(i);
            self.cells[i] = Cell::blank(bg);
        }
        self.last = None;
    }

    fn index(&mut self) {
        self.pending = false;
        self.last = None;
        if self.line == self.bot { self.scroll_up(); }
        else if self.line + 1 < self.lines { self.line += 1; }
    }

    fn scroll_up(&mut self) {
        self.scrolled += 1;
        let (t, b, c) = (self.top, self.bot, self.cols);
        self.cells.drain(t * c..(t + 1) * c);
        let bg = if self.bce { self.attr.bg } else { None };
        let at = b * c;
        self.cells.splice(at..at, (0..c).map(|_| Cell::blank(bg)));
    }

    fn scroll_down(&mut self) {
        self.scrolled += 1;
        let (t, b, c) = (self.top, self.bot, self.cols);
        self.cells.drain(b * c..(b + 1) * c);
        let bg = if self.bce { self.attr.bg } else { None };
        let at = t * c;
        self.cells.splice(at..at, (0..c).map(|_| Cell::blank(bg)));
    }

    /// Cell `i` is about to be overwritten: a wide character it belongs to vanishes.
    fn unpair(&mut self, i: usize) {
        let row = i / self.cols * self.cols;
        if self.cells[i].w == 0 {
            let mut j = i;
            while j > row && self.cells[j].w == 0 { j -= 1; }
            let end = (j + self.cells[j].w.max(1)).min(row + self.cols);
            for k in j..end {
                let a = match self.scrub { 1 => Attr::default(), 2 => self.attr, _ => self.cells[k].attr };
                self.cells[k] = Cell{text: " ".into(), w: 1, attr: a};
            }
        } else if self.cells[i].w > 1 {
            let end = (i + self.cells[i].w).min(row + self.cols);
            for k in i..end {
                let a = match self.scrub { 1 => Attr::default(), 2 => self.attr, _ => self.cells[k].attr };
                self.cells[k] = Cell{text: " ".into(), w: 1, attr: a};
            }
        }
    }

    fn print(&mut self, ch: char) {
        let w = match UnicodeWidthChar::width(ch) {
            None => return self.odd(format!("control character U+{:04X}", ch as u32)),
            Some(w) => w,
        };
        if w == 0 {
            if !unicode_normalization::char::is_combining_mark(ch) {
                return self.odd(format!("invisible character U+{:04X}", ch as u32));
            }
            match self.last {
                Some((l, c)) => {
                    let i = l * self.cols + c;
                    self.cells[i].text.push(ch);
                }
                None => self.odd(format!("combining mark U+{:04X} without a preceding character", ch as u32)),
            }
            return;
        }
        self.printed += 1;
        if self.pending {
            self.col = 0;
            self.index();
        }
        if w > self.cols { return self.odd(format!("U+{:04X} is wider than the screen", ch as u32)); }
        if self.col + w > self.cols {
            self.odd(format!("U+{:04X} straddles the right edge", ch as u32));
            self.col = 0;
            self.index();
        }
        let base = self.line * self.cols + self.col;
        for k in 0..w { self.unpair(base + k); }
        if let Some(t) = &mut self.touched { t.extend(base..base + w); }
        self.cells[base] = Cell{text: ch.to_string(), w, attr: self.attr};
        for k in 1..w { self.cells[base + k] = Cell{text: String::new(), w: 0, attr: self.attr}; }
        self.last = Some((self.line, self.col));
        if self.col + w >= self.cols {
            match self.margin {
                Margin::Stay => self.col = self.cols - 1,
                Margin::Wrap if self.line != self.bot && self.line + 1 < self.lines => { self.col = 0; self.line += 1; }
                _ => { self.col = self.cols - 1; self.pending = true; }
            }
        } else {
            self.col += w;
        }
    }
}
