//! The pseudo-terminal the library is pointed at, and what the kernel says about it.

use crate::interpose as ip;
use libc::{c_int, termios};
use std::ffi::CStr;

pub struct Pty {
    pub slot: usize,
    pub master: c_int,
    pub slave: c_int,
    pub path: String,
    pub tio0: termios,
}

fn check(ok: bool, what: &str) {
    if !ok { panic!("harness: {}: {}", what, std::io::Error::last_os_error()); }
}

impl Pty {
    pub fn open(slot: usize) -> Pty {
        unsafe {
            let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            check(master >= 0, "posix_openpt");
            check(libc::grantpt(master) == 0, "grantpt");
            check(libc::unlockpt(master) == 0, "unlockpt");
            let mut buf = [0 as libc::c_char; 128];
            check(libc::ptsname_r(master, buf.as_mut_ptr(), buf.len()) == 0, "ptsname");
            let path = CStr::from_ptr(buf.as_ptr()).to_str().unwrap().to_string();
            let slave = libc::open(buf.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            check(slave >= 0, "open slave");
            // Keep clear of the low numbers
            let hi = libc::fcntl(slave, libc::F_DUPFD_CLOEXEC, 200);
            let him = libc::fcntl(master, libc::F_DUPFD_CLOEXEC, 210);
            check(hi >= 0 && him >= 0, "dup");
            libc::syscall(libc::SYS_close, slave);
            libc::syscall(libc::SYS_close, master);
            let (slave, master) = (hi, him);
            let mut st: libc::stat = std::mem::zeroed();
            check(libc::fstat(slave, &mut st) == 0, "fstat");
            let mut tio: termios = std::mem::zeroed();
            check(libc::tcgetattr(slave, &mut tio) == 0, "tcgetattr");
            ip::register(slot, st.st_rdev, master);
            Pty{slot, master, slave, path, tio0: tio}
        }
    }

    pub fn reset(&self, lines: usize, cols: usize) {
        ip::reset(self.slot);
        self.set_tio(&self.tio0);
        unsafe { libc::tcflush(self.slave, libc::TCIOFLUSH); }
        self.set_size(lines, cols);
    }

    pub fn set_size(&self, lines: usize, cols: usize) {
        let w = libc::winsize{ws_row: lines as u16, ws_col: cols as u16, ws_xpixel: 0, ws_ypixel: 0};
        let r = unsafe { libc::syscall(libc::SYS_ioctl, self.master, libc::TIOCSWINSZ, &w as *const _) };
        check(r == 0, "TIOCSWINSZ");
    }

    pub fn size(&self) -> (usize, usize) {
        let mut w = libc::winsize{ws_row: 0, ws_col: 0, ws_xpixel: 0, ws_ypixel: 0};
        let r = unsafe { libc::syscall(libc::SYS_ioctl, self.master, libc::TIOCGWINSZ, &mut w as *mut _) };
        check(r == 0, "TIOCGWINSZ");
        (w.ws_row as usize, w.ws_col as usize)
    }

    pub fn tio(&self) -> termios {
        unsafe {
            let mut t: termios = std::mem::zeroed();
            // 60 bytes of padding stay zero
            check(libc::tcgetattr(self.slave, &mut t) == 0, "tcgetattr");
            t
        }
    }

    pub fn set_tio(&self, t: &termios) {
        unsafe { check(libc::tcsetattr(self.slave, libc::TCSANOW, t) == 0, "tcsetattr"); }
    }

    /// Bytes typed by the user
    pub fn type_in(&self, b: &[u8]) { ip::raw_write_all(self.master, b); }

    /// Is there unread input in the driver?
    pub fn pending(&self) -> usize {
        let mut n: c_int = 0;
        unsafe { libc::syscall(libc::SYS_ioctl, self.slave, libc::FIONREAD, &mut n as *mut c_int); }
        n as usize
    }
}

pub fn tio_key(t: &termios) -> (u32, u32, u32, u32, Vec<u8>) {
    (t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc.to_vec())
}

pub fn show_tio(t: &termios) -> String {
    format!("iflag {:o} oflag {:o} cflag {:o} lflag {:o} vmin {} vtime {} cc {:?}", t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag,
        t.c_cc[libc::VMIN], t.c_cc[libc::VTIME], &t.c_cc[..19])
}

/// Disposition of one signal, as the kernel reports it
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Disp { pub handler: usize, pub flags: i32, pub mask: Vec<i32> }

pub fn disposition(sig: c_int) -> Disp {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        libc::sigaction(sig, std::ptr::null(), &mut a);
        let mask = (1..65).filter(|&s| libc::sigismember(&a.sa_mask, s) == 1).collect();
        Disp{handler: a.sa_sigaction, flags: a.sa_flags & !0x0400_0000, mask}
    }
}

pub fn set_disposition(sig: c_int, handler: usize, flags: c_int, mask: &[c_int]) {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = handler;
        a.sa_flags = flags;
        for &m in mask { libc::sigaddset(&mut a.sa_mask, m); }
        libc::sigaction(sig, &a, std::ptr::null_mut());
    }
}

pub const SIGS: [c_int; 5] = [libc::SIGCONT, libc::SIGWINCH, libc::SIGINT, libc::SIGTSTP, libc::SIGQUIT];

pub fn signame(s: c_int) -> &'static str {
    match s {
        libc::SIGCONT => "SIGCONT", libc::SIGWINCH => "SIGWINCH", libc::SIGINT => "SIGINT",
        libc::SIGTSTP => "SIGTSTP", libc::SIGQUIT => "SIGQUIT", _ => "?",
    }
}

/// All standard signal dispositions
pub fn all_dispositions() -> Vec<(c_int, Disp)> {
    (1..32).filter(|&s| s != libc::SIGKILL && s != libc::SIGSTOP).map(|s| (s, disposition(s))).collect()
}

pub fn open_fds() -> Vec<(c_int, String)> {
    let mut v = Vec::new();
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if let Ok(n) = e.file_name().to_string_lossy().parse::<c_int>() {
                if let Ok(t) = std::fs::read_link(e.path()) {
                    let t = t.to_string_lossy().to_string();
                    if !t.starts_with("/proc/") || !t.ends_with("/fd") { v.push((n, t)); }
                }
            }
        }
    }
    v.sort();
    v
}
