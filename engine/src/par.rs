//! Splitting the exploration over processes with fork(2).
use std::ffi::c_int;
extern "C" {
    fn fork() -> c_int;
    fn pipe(p: *mut c_int) -> c_int;
    fn read(f: c_int, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(f: c_int, b: *const std::ffi::c_void, n: usize) -> isize;
    fn fcntl(f: c_int, c: c_int, a: c_int) -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn poll(p: *mut PollFd, n: u64, t: c_int) -> c_int;
}
#[repr(C)]
struct PollFd {
    fd: c_int,
    ev: i16,
    rev: i16,
}
pub enum Role {
    None,
    Parent,
    Child,
}
pub struct Par {
    r: c_int,
    w: c_int,
    pub children: Vec<c_int>,
    pub dir: String,
    pub forked: bool,
    bad: usize,
}
impl Par {
    /// `n` extra workers may run at a time.
    pub fn new(n: usize) -> Par {
        let mut f = [0; 2];
        unsafe {
            if pipe(f.as_mut_ptr()) != 0 {
                eprintln!("engine: pipe failed");
                std::process::exit(3);
            }
            fcntl(f[0], 4, 0o4000);
            for _ in 0..n {
                write(f[1], b"t".as_ptr() as *const _, 1);
            }
        }
        Par { r: f[0], w: f[1], children: vec![], dir: String::new(), forked: false, bad: 0 }
    }
    fn take(&self) -> bool {
        let mut b = 0u8;
        unsafe { read(self.r, &mut b as *mut u8 as *mut _, 1) == 1 }
    }
    pub fn take_wait(&mut self) {
        while !self.take() {
            let mut p = PollFd { fd: self.r, ev: 1, rev: 0 };
            unsafe { poll(&mut p, 1, 100) };
            // a killed worker never gave its token back
            let mut left = vec![];
            for c in std::mem::take(&mut self.children) {
                let mut s = 0;
                if unsafe { waitpid(c, &mut s, 1) } == c {
                    if s != 0 {
                        self.bad += 1;
                        self.release();
                    }
                } else {
                    left.push(c);
                }
            }
            self.children = left;
        }
    }
    pub fn release(&self) {
        unsafe { write(self.w, b"t".as_ptr() as *const _, 1) };
    }
    /// Fork holding a token already taken.
    pub fn fork_now(&mut self) -> Role {
        let p = unsafe { fork() };
        if p < 0 {
            self.release();
            return Role::None;
        }
        if p == 0 {
            self.children.clear();
            self.bad = 0;
            self.forked = true;
            return Role::Child;
        }
        self.children.push(p);
        Role::Parent
    }
    pub fn try_fork(&mut self) -> Role {
        if !self.take() {
            return Role::None;
        }
        self.fork_now()
    }
    /// Wait for all children; number that did not exit with 0.
    pub fn wait_all(&mut self) -> usize {
        let mut bad = std::mem::take(&mut self.bad);
        for c in std::mem::take(&mut self.children) {
            let mut s = 0;
            let r = unsafe { waitpid(c, &mut s, 0) };
            if r != c || s != 0 {
                bad += 1;
                // a killed worker never gave its token back
                self.release();
            }
        }
        bad
    }
}
