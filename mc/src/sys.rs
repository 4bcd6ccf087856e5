//! The few system calls the engine needs (std only, no external crates).
use std::fs::{File, OpenOptions};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::*};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn limit_memory(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); setrlimit(4, &[0, 0]); } }
pub fn die_with_parent() { unsafe { prctl(1, 9, 0, 0, 0); } }
pub fn kill9(pid: u32) { unsafe { kill(pid as i32, 9); } }

const HEAD: usize = 4096;
pub const CLAIMS: usize = 32 << 20;
const SLOT: usize = 4 << 20;

/// Memory shared by the parent and the workers: a stop flag, one claim byte per work unit, and per
/// worker the input it is running right now (so that a crash or hang names its input).
pub struct Shm { base: *mut u8, me: usize, _f: File }
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}

impl Shm {
    pub fn open(path: &str, workers: usize, me: usize, create: bool) -> Shm {
        let f = OpenOptions::new().read(true).write(true).create(create).open(path).expect("shm");
        let len = HEAD + CLAIMS + SLOT * workers;
        if create { f.set_len(len as u64).expect("shm size"); }
        let base = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        assert!(base as isize != -1, "mmap");
        Shm { base, me, _f: f }
    }
    pub fn stop_flag(&self) -> &AtomicU32 { unsafe { &*(self.base as *const AtomicU32) } }
    pub fn claim(&self, unit: usize) -> bool {
        assert!(unit < CLAIMS, "too many work units");
        let c = unsafe { &*(self.base.add(HEAD + unit) as *const AtomicU8) };
        c.load(Relaxed) == 0 && c.swap(1, Relaxed) == 0
    }
    fn slot(&self, w: usize) -> *mut u8 { unsafe { self.base.add(HEAD + CLAIMS + SLOT * w) } }
    fn seq(&self, w: usize) -> &AtomicU64 { unsafe { &*(self.slot(w) as *const AtomicU64) } }
    /// Called right before the implementation is entered (kind: what is being run).
    pub fn enter(&self, kind: u8, src: &[u8]) {
        let s = self.slot(self.me);
        let n = src.len().min(SLOT - 64);
        unsafe {
            *(s.add(16) as *mut u32) = n as u32;
            *s.add(20) = kind;
            std::ptr::copy_nonoverlapping(src.as_ptr(), s.add(32), n);
            // odd: inside the implementation
            let q = self.seq(self.me).load(Relaxed);
            self.seq(self.me).store((q | 1) + 2 * (q & 1), Release);
        }
    }
    pub fn leave(&self) {
        let q = self.seq(self.me).load(Relaxed);
        self.seq(self.me).store((q + 1) & !1, Release);
    }
    /// (sequence number, inside the implementation)
    pub fn status(&self, w: usize) -> (u64, bool) { let q = self.seq(w).load(Acquire); (q, q & 1 == 1) }
    pub fn current(&self, w: usize) -> (u8, String) {
        let s = self.slot(w);
        unsafe {
            let n = *(s.add(16) as *const u32) as usize;
            let v = std::slice::from_raw_parts(s.add(32), n);
            (*s.add(20), String::from_utf8_lossy(v).to_string())
        }
    }
}

/// CPU time used by a process, in clock ticks (1/100 s).
pub fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    match s.rfind(')') {
        None => 0,
        Some(p) => {
            let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
            if f.len() < 13 { return 0; }
            f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
        }
    }
}
