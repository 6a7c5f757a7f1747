//! Executable specification of a Screen's content: what a sequence of drawing calls must look like.

use crate::caps::{same_blank, Caps};
use crate::vt::Vt;
use mortal::{Color, Style};
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, PartialEq)]
pub struct MCell {
    pub text: String,
    /// columns; 0 for the hidden part of a wide character
    pub w: usize,
    pub fg: Option<Color>,
    pub bg: Option<Color>,
    pub style: Style,
    /// a blank whose attributes are not specified
    pub loose: bool,
    /// content not specified
    pub any: bool,
}

impl MCell {
    pub fn blank() -> MCell { MCell{text: " ".into(), w: 1, fg: None, bg: None, style: Style::empty(), loose: false, any: false} }
    fn loose() -> MCell { MCell{loose: true, ..MCell::blank()} }
}

#[derive(Clone)]
pub struct Model {
    pub lines: usize,
    pub cols: usize,
    pub cells: Vec<MCell>,
    pub line: usize,
    pub col: usize,
    pub fg: Option<Color>,
    pub bg: Option<Color>,
    pub style: Style,
    /// statistics
    pub wraps: u64,
    pub dropped: u64,
    pub broken_wide: u64,
    pub marks: u64,
    pub ignored: u64,
}

/// What a character is, for layout
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Class { Tab, Cr, Lf, Mark, Print(usize), Ignored }

pub fn class(ch: char) -> Class {
    match ch {
        '\t' => Class::Tab,
        '\r' => Class::Cr,
        '\n' => Class::Lf,
        _ => match UnicodeWidthChar::width(ch) {
            None => Class::Ignored,
            Some(0) => if unicode_normalization::char::is_combining_mark(ch) { Class::Mark } else { Class::Ignored },
            Some(w) => Class::Print(w),
        }
    }
}

impl Model {
    pub fn new(lines: usize, cols: usize) -> Model {
        Model{lines, cols, cells: vec![MCell::blank(); lines * cols], line: 0, col: 0, fg: None, bg: None, style: Style::empty(),
            wraps: 0, dropped: 0, broken_wide: 0, marks: 0, ignored: 0}
    }

    pub fn oob(&self) -> bool { self.line >= self.lines || self.col >= self.cols }

    /// The cell is about to be replaced: break up the wide character it belongs to
    fn unpair(&mut self, i: usize) {
        let row = i / self.cols * self.cols;
        let mut j = i;
        while j > row && self.cells[j].w == 0 { j -= 1; }
        let n = self.cells[j].w;
        if n > 1 {
            self.broken_wide += 1;
            let any = self.cells[j].any;
            for k in j..(j + n).min(row + self.cols) { self.cells[k] = MCell{any, ..MCell::loose()}; }
        }
    }

    /// false: the character fell outside the screen
    pub fn write_char(&mut self, ch: char) -> bool {
        match class(ch) {
            Class::Tab => {
                if self.oob() { self.dropped += 1; return false; }
                let n = (self.cols - self.col).min(8 - self.col % 8);
                for _ in 0..n { if !self.write_char(' ') { return false; } }
                true
            }
            Class::Cr => { self.col = 0; true }
            Class::Lf => { self.line += 1; self.col = 0; true }
            Class::Ignored => { self.ignored += 1; true }
            Class::Mark => {
                // belongs to the cell before the cursor
                let (l, c) = if self.col == 0 {
                    if self.line == 0 { return true; }
                    if self.cols == 0 { return false; }
                    (self.line - 1, self.cols - 1)
                } else { (self.line, self.col - 1) };
                if l >= self.lines || c >= self.cols { return false; }
                let mut i = l * self.cols + c;
                let row = l * self.cols;
                while i > row && self.cells[i].w == 0 { i -= 1; }
                self.cells[i].text.push(ch);
                self.marks += 1;
                true
            }
            Class::Print(w) => {
                if self.oob() { self.dropped += 1; return false; }
                if w > self.cols { self.dropped += 1; return false; }
                if self.col + w > self.cols {
                    let at = self.line * self.cols;
                    let last = self.line + 1 >= self.lines;
                    for c in self.col..self.cols {
                        self.unpair_any(at + c, last);
                        // No room for the character here: blank. Whether that also happens when there is no
                        // next line either is not specified.
                        self.cells[at + c] = MCell{any: last, loose: last, fg: self.fg, bg: self.bg, style: self.style, ..MCell::blank()};
                    }
                    self.wraps += 1;
                    self.line += 1;
                    self.col = 0;
                    if self.oob() { self.dropped += 1; return false; }
                }
                let at = self.line * self.cols + self.col;
                for k in 0..w { self.unpair(at + k); }
                self.cells[at] = MCell{text: ch.to_string(), w, fg: self.fg, bg: self.bg, style: self.style, loose: false, any: false};
                for k in 1..w {
                    self.cells[at + k] = MCell{text: String::new(), w: 0, fg: self.fg, bg: self.bg, style: self.style, loose: false, any: false};
                }
                self.col += w;
                if self.col >= self.cols { self.line += 1; self.col = 0; self.wraps += 1; }
                true
            }
        }
    }

    fn unpair_any(&mut self, i: usize, any: bool) {
        let row = i / self.cols * self.cols;
        let mut j = i;
        while j > row && self.cells[j].w == 0 { j -= 1; }
        let n = self.cells[j].w;
        self.unpair(i);
        if any { for k in j..(j + n).min(row + self.cols) { self.cells[k].any = true; } }
    }

    pub fn write_str(&mut self, s: &str) {
        for ch in s.chars() { if !self.write_char(ch) { break; } }
    }

    pub fn write_at(&mut self, l: usize, c: usize, s: &str) {
        if l >= self.lines || c >= self.cols { self.dropped += 1; return; }
        self.line = l;
        self.col = c;
        self.write_str(s);
    }

    pub fn write_styled(&mut self, fg: Option<Color>, bg: Option<Color>, style: Style, s: &str) {
        self.fg = fg;
        self.bg = bg;
        self.style = style;
        self.write_str(s);
        self.clear_attributes();
    }

    pub fn write_styled_at(&mut self, l: usize, c: usize, fg: Option<Color>, bg: Option<Color>, style: Style, s: &str) {
        if l >= self.lines || c >= self.cols { self.dropped += 1; return; }
        self.line = l;
        self.col = c;
        self.write_styled(fg, bg, style, s);
    }

    pub fn clear_attributes(&mut self) { self.fg = None; self.bg = None; self.style = Style::empty(); }
    pub fn clear_screen(&mut self) { for c in self.cells.iter_mut() { *c = MCell::blank(); } }

    pub fn resize(&mut self, lines: usize, cols: usize) {
        let mut n = vec![MCell::blank(); lines * cols];
        for l in 0..lines.min(self.lines) {
            for c in 0..cols.min(self.cols) { n[l * cols + c] = self.cells[l * self.cols + c].clone(); }
        }
        // a wide character that lost a half to the right edge is gone
        if cols < self.cols {
            for l in 0..lines.min(self.lines) {
                let mut c = 0;
                while c < cols {
                    let w = n[l * cols + c].w.max(1);
                    if c + w > cols {
                        let any = n[l * cols + c].any;
                        for k in c..cols { n[l * cols + k] = MCell{any, ..MCell::loose()}; }
                        self.broken_wide += 1;
                    }
                    c += w;
                }
            }
        }
        self.lines = lines;
        self.cols = cols;
        self.cells = n;
    }

    /// Compares with what the terminal shows.
    pub fn compare(&self, vt: &Vt, caps: &Caps, cursor: bool) -> Result<(), String> {
        if vt.lines != self.lines || vt.cols != self.cols { return Err(format!("harness: sizes differ")); }
        if let Some(a) = vt.anomalies.first() { return Err(format!("the terminal received something it must not: {}", a)); }
        if vt.incomplete() { return Err("output ends in the middle of a sequence".into()); }
        for l in 0..self.lines {
            for c in 0..self.cols {
                let m = &self.cells[l * self.cols + c];
                if m.any { continue; }
                let v = vt.at(l, c);
                let show = |s: &str| s.chars().map(|c| format!("{:?}(U+{:04X})", c, c as u32)).collect::<Vec<_>>().join(",");
                if m.w == 0 {
                    if v.w != 0 { return Err(format!("cell ({},{}): expected the second half of a wide character, terminal shows {}", l, c, show(&v.text))); }
                    continue;
                }
                if v.w == 0 { return Err(format!("cell ({},{}): expected {}, terminal shows the second half of a wide character", l, c, show(&m.text))); }
                if v.text != m.text {
                    return Err(format!("cell ({},{}): expected {}, terminal shows {}", l, c, show(&m.text), show(&v.text)));
                }
                if m.loose { continue; }
                let want = caps.look(m.fg, m.bg, m.style);
                let same = if m.text == " " { same_blank(&want, &v.attr) } else { want == v.attr };
                if !same {
                    return Err(format!("cell ({},{}) {}: expected attributes {:?}, terminal shows {:?}", l, c, show(&m.text), want, v.attr));
                }
            }
        }
        if cursor {
            let (l, c) = if self.oob() { (self.lines - 1, self.cols - 1) } else { (self.line, self.col) };
            if (vt.line, vt.col) != (l, c) {
                return Err(format!("cursor: expected at ({},{}), terminal has it at ({},{})", l, c, vt.line, vt.col));
            }
        }
        Ok(())
    }
}
