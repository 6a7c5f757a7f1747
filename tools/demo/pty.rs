//! A pseudo-terminal for the demonstration; nothing outside it is touched.
#![allow(dead_code)]
use std::ffi::CStr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Pty { pub master: i32, pub slave: i32, pub path: String, out: Arc<Mutex<Vec<u8>>> }

impl Pty {
    pub fn new(term: &str, lines: u16, columns: u16) -> Pty {
        std::env::set_var("TERM", term);
        unsafe {
            let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            assert!(master >= 0 && libc::grantpt(master) == 0 && libc::unlockpt(master) == 0);
            let mut b = [0 as libc::c_char; 128];
            assert!(libc::ptsname_r(master, b.as_mut_ptr(), b.len()) == 0);
            let path = CStr::from_ptr(b.as_ptr()).to_str().unwrap().to_string();
            let slave = libc::open(b.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            assert!(slave >= 0);
            let mut t: libc::termios = std::mem::zeroed();
            libc::tcgetattr(slave, &mut t);
            t.c_oflag &= !libc::OPOST;
            t.c_lflag &= !(libc::ECHO | libc::ICANON);
            libc::tcsetattr(slave, libc::TCSANOW, &t);
            let p = Pty{master, slave, path, out: Default::default()};
            p.resize(lines, columns);
            let o = p.out.clone();
            std::thread::spawn(move || {
                let mut b = [0u8; 4096];
                loop {
                    let n = libc::read(master, b.as_mut_ptr() as *mut _, b.len());
                    if n <= 0 { std::thread::sleep(Duration::from_millis(5)); continue; }
                    o.lock().unwrap().extend_from_slice(&b[..n as usize]);
                }
            });
            p
        }
    }
    pub fn resize(&self, lines: u16, columns: u16) {
        let w = libc::winsize{ws_row: lines, ws_col: columns, ws_xpixel: 0, ws_ypixel: 0};
        unsafe { libc::ioctl(self.master, libc::TIOCSWINSZ, &w); }
    }
    pub fn type_in(&self, b: &[u8]) {
        let mut o = 0;
        while o < b.len() {
            let n = unsafe { libc::write(self.master, b[o..].as_ptr() as *const _, b.len() - o) };
            if n > 0 { o += n as usize; }
        }
    }
    /// Output so far, once it has been quiet for a while; it is forgotten.
    pub fn take(&self) -> Vec<u8> {
        let mut n = 0;
        let mut t = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(10));
            let m = self.out.lock().unwrap().len();
            if m != n { n = m; t = Instant::now(); }
            if t.elapsed() > Duration::from_millis(150) { break; }
        }
        std::mem::take(&mut *self.out.lock().unwrap())
    }
    pub fn termios(&self) -> libc::termios {
        unsafe { let mut t: libc::termios = std::mem::zeroed(); libc::tcgetattr(self.slave, &mut t); t }
    }
    pub fn terminal(&self) -> mortal::Terminal {
        use mortal::unix::OpenTerminalExt;
        mortal::Terminal::from_path(&self.path).unwrap()
    }
}

pub fn fail(what: &str) -> ! { eprintln!("DEMO: {}", what); std::process::exit(1) }

/// What an xterm of this size shows after these bytes: text and rendition of each cell, and the cursor.
/// Wide characters take two cells, the second of which is empty; combining marks are added to the cell before.
pub fn display(bytes: &[u8], lines: usize, cols: usize) -> (Vec<Vec<(String, String)>>, (usize, usize)) {
    let blank = || (" ".to_string(), String::new());
    let mut g = vec![vec![blank(); cols]; lines];
    let (mut l, mut c) = (0usize, 0usize);
    let (mut fg, mut bg, mut st) = (None::<u32>, None::<u32>, std::collections::BTreeSet::<u32>::new());
    let s = String::from_utf8_lossy(bytes).to_string();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '\u{1b}' => match it.next() {
                Some('[') => {
                    let mut p = String::new();
                    let mut f = ' ';
                    while let Some(x) = it.next() { if ('@'..='~').contains(&x) { f = x; break; } p.push(x); }
                    let a: Vec<u32> = p.split(';').map(|x| x.parse().unwrap_or(0)).collect();
                    let n = |i: usize| a.get(i).copied().unwrap_or(0).max(1) as usize;
                    match f {
                        'H' => { l = (n(0) - 1).min(lines - 1); c = (n(1) - 1).min(cols - 1); }
                        'A' => l = l.saturating_sub(n(0)),
                        'B' => l = (l + n(0)).min(lines - 1),
                        'C' => c = (c + n(0)).min(cols - 1),
                        'D' => c = c.saturating_sub(n(0)),
                        'J' if a[0] == 2 => g = vec![vec![blank(); cols]; lines],
                        'J' => { for x in c..cols { g[l][x] = blank(); } for y in l + 1..lines { for x in 0..cols { g[y][x] = blank(); } } }
                        'K' => for x in c..cols { g[l][x] = blank(); },
                        'm' => for &x in &a { match x {
                            0 => { fg = None; bg = None; st.clear(); }
                            1 | 3 | 4 | 7 => { st.insert(x); }
                            22 => { st.remove(&1); } 23 => { st.remove(&3); } 24 => { st.remove(&4); } 27 => { st.remove(&7); }
                            30..=37 => fg = Some(x), 40..=47 => bg = Some(x), 39 => fg = None, 49 => bg = None,
                            _ => (),
                        } },
                        _ => (),
                    }
                }
                Some('(') => { it.next(); }
                _ => (),
            },
            '\r' => c = 0,
            '\n' => l = (l + 1).min(lines - 1),
            '\u{8}' => c = c.saturating_sub(1),
            x if (x as u32) < 32 => (),
            '\u{300}'..='\u{36f}' => { if c > 0 { let mut k = c - 1; while k > 0 && g[l][k].0.is_empty() { k -= 1; } g[l][k].0.push(ch); } }
            _ => {
                let w = if ch as u32 >= 0x1100 { 2 } else { 1 };
                if c + w > cols { c = 0; l = (l + 1).min(lines - 1); }
                let a = format!("{}{}{:?}", fg.map_or(String::new(), |x| format!("f{} ", x)), bg.map_or(String::new(), |x| format!("b{} ", x)), st).replace("{}", "");
                g[l][c] = (ch.to_string(), a.clone());
                if w == 2 { g[l][c + 1] = (String::new(), a); }
                c += w;
            }
        }
    }
    (g, (l, c))
}
/// The text of one line.
pub fn line(g: &(Vec<Vec<(String, String)>>, (usize, usize)), n: usize) -> String { g.0[n].iter().map(|c| c.0.as_str()).collect::<String>() }
impl Pty {
    /// Output so far, once a marker has come through after it; for many short comparisons.
    pub fn take_now(&self) -> Vec<u8> {
        const M: &[u8] = b"\x1b[5;5R";
        unsafe { libc::write(self.slave, M.as_ptr() as *const _, M.len()); }
        loop {
            std::thread::sleep(Duration::from_micros(200));
            let mut o = self.out.lock().unwrap();
            if o.ends_with(M) { let mut v = std::mem::take(&mut *o); v.truncate(v.len() - M.len()); return v; }
        }
    }
    /// Hangs the terminal up.
    pub fn hang_up(&self) {
        unsafe {
            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR | libc::O_CLOEXEC);
            libc::dup2(n, self.master);
            libc::close(n);
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}
