//! Runtime shared by the harnesses.
//!
//! The `sym_*` functions are what the symbolic engine recognises by name. Under
//! the engine their bodies are never run: `sym_int` yields an unconstrained
//! variable, `sym_assert` becomes a solver query, and so on. Compiled natively
//! the same binary replays one concrete input: `sym_int` reads the next bytes of
//! the replay file and `sym_assert` checks the concrete value.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

static mut INPUT: Vec<u8> = Vec::new();
static POS: AtomicUsize = AtomicUsize::new(0);
static ENGINE: AtomicBool = AtomicBool::new(false);
static mut OBS: Vec<u8> = Vec::new();

static LIVE: AtomicUsize = AtomicUsize::new(0);
static MAXREQ: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static NATIVE_CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

struct Counting;
fn note(n: usize) {
    TOTAL.store(TOTAL.load(Relaxed).wrapping_add(n), Relaxed);
    if n > MAXREQ.load(Relaxed) {
        MAXREQ.store(n, Relaxed);
        if n > NATIVE_CAP.load(Relaxed) {
            eprintln!("ALLOC {n}");
            std::process::exit(45);
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        note(l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        note(l.size());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        note(n);
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Largest single allocation request since the last reset.
pub fn alloc_max() -> usize {
    MAXREQ.load(Relaxed)
}
/// Sum of the allocation requests since the last reset.
pub fn alloc_total() -> usize {
    TOTAL.load(Relaxed)
}
pub fn alloc_reset() {
    MAXREQ.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    LIVE.store(0, Relaxed);
}

fn take(n: usize) -> &'static [u8] {
    let p = POS.load(Relaxed);
    let v: &'static Vec<u8> = unsafe { &*std::ptr::addr_of!(INPUT) };
    if p + n > v.len() {
        eprintln!("INPUT-EXHAUSTED");
        std::process::exit(44);
    }
    POS.store(p + n, Relaxed);
    &v[p..p + n]
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_int(p: *mut u8, n: u32) {
    let s = take(n as usize);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), p, n as usize) }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_choice(n: u32) -> u32 {
    let s = take(4);
    let v = u32::from_le_bytes([s[0], s[1], s[2], s[3]]);
    if v >= n {
        eprintln!("BAD-CHOICE");
        std::process::exit(44);
    }
    v
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        finish("ASSUME-FALSE", 43);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        finish(&format!("ASSERT {}", String::from_utf8_lossy(s)), 41);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_observe(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    let o: &mut Vec<u8> = unsafe { &mut *std::ptr::addr_of_mut!(OBS) };
    o.extend_from_slice(&(n as u32).to_le_bytes());
    o.extend_from_slice(s);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_cover(p: *const u8, n: usize) {
    std::hint::black_box((p, n));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    std::hint::black_box(v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_on_panic(f: Option<extern "C" fn()>) {
    match f {
        Some(f) => std::panic::set_hook(Box::new(move |_| f())),
        None => drop(std::panic::take_hook()),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_is_engine() -> bool {
    ENGINE.load(Relaxed)
}

#[repr(transparent)]
pub struct Keep(pub *const ());
unsafe impl Sync for Keep {}
// Taking the addresses keeps the optimiser from specialising the calls.
#[used]
static KEEP: [Keep; 9] = [
    Keep(sym_int as *const ()),
    Keep(sym_choice as *const ()),
    Keep(sym_assume as *const ()),
    Keep(sym_assert as *const ()),
    Keep(sym_observe as *const ()),
    Keep(sym_cover as *const ()),
    Keep(sym_concretize as *const ()),
    Keep(sym_on_panic as *const ()),
    Keep(sym_is_engine as *const ()),
];

/// Ends the run here.
pub fn done() -> ! {
    if sym_is_engine() {
        extern "C" {
            fn exit(code: i32) -> !;
        }
        unsafe { exit(0) }
    }
    finish("DONE", 0)
}
fn finish(what: &str, code: i32) -> ! {
    let o: &Vec<u8> = unsafe { &*std::ptr::addr_of!(OBS) };
    let mut s = String::new();
    for b in o {
        s.push_str(&format!("{b:02x}"));
    }
    println!("OBS {s}");
    println!("MAXREQ {}", alloc_max());
    println!("{what}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

// ---- harness-side helpers ---------------------------------------------------
pub fn any<T: Int>() -> T {
    T::any()
}
pub trait Int: Copy {
    fn any() -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl Int for $t {
        #[inline(always)]
        fn any() -> $t {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            sym_int(b.as_mut_ptr(), b.len() as u32);
            <$t>::from_ne_bytes(b)
        }
    })* };
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);
impl Int for bool {
    fn any() -> bool {
        u8::any() & 1 == 1
    }
}
impl Int for f64 {
    fn any() -> f64 {
        f64::from_bits(u64::any())
    }
}
impl Int for f32 {
    fn any() -> f32 {
        f32::from_bits(u32::any())
    }
}
/// Any Unicode scalar value.
impl Int for char {
    fn any() -> char {
        let v = u32::any();
        assume((v < 0xd800) | ((v > 0xdfff) & (v <= 0x10ffff)));
        unsafe { char::from_u32_unchecked(v) }
    }
}
#[inline(always)]
pub fn choice(n: u32) -> u32 {
    sym_choice(n)
}
#[inline(always)]
pub fn assume(c: bool) {
    sym_assume(c)
}
#[inline(always)]
pub fn check(c: bool, id: &str) {
    sym_assert(c, id.as_ptr(), id.len())
}
#[inline(always)]
pub fn observe(b: &[u8]) {
    sym_observe(b.as_ptr(), b.len())
}
#[inline(always)]
pub fn cover(id: &str) {
    sym_cover(id.as_ptr(), id.len())
}
/// The program may panic, and then this happens, which ends with `done`.
pub fn on_panic(f: Option<extern "C" fn()>) {
    sym_on_panic(f)
}
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    sym_concretize(v)
}
/// `n` unconstrained bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8::any());
    }
    v
}
/// A string of exactly `n` bytes, all ASCII.
pub fn ascii(n: usize) -> String {
    let v = bytes(n);
    let mut all = 0u8;
    for b in &v {
        all |= *b;
    }
    assume(all < 0x80);
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of exactly `n` arbitrary characters.
pub fn chars(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push(char::any());
    }
    s
}

/// Native replay: run harness `name` on the input in a file.
pub fn main(table: &[(&str, extern "C" fn())]) {
    let mut a = std::env::args().skip(1);
    let (Some(n), Some(f)) = (a.next(), a.next()) else {
        for t in table {
            println!("{}", t.0);
        }
        return;
    };
    let data = std::fs::read(&f).expect("read replay input");
    unsafe { *std::ptr::addr_of_mut!(INPUT) = data };
    // whatever the code under test does to files, it does as nobody
    extern "C" {
        fn setgid(g: u32) -> i32;
        fn setuid(u: u32) -> i32;
    }
    unsafe {
        setgid(65534);
        setuid(65534);
    }
    if let Some(c) = a.next() {
        NATIVE_CAP.store(c.parse().unwrap(), Relaxed);
    }
    for t in table {
        if t.0 == n {
            // the stack a Rust thread has unless told otherwise
            let f = t.1;
            let run = move || {
                alloc_reset();
                f();
                finish("DONE", 0);
            };
            let _ = std::thread::Builder::new().stack_size(2 << 20).spawn(run).expect("thread").join();
            std::process::exit(46);
        }
    }
    eprintln!("no harness {n}");
    std::process::exit(46);
}

#[macro_export]
macro_rules! harnesses {
    ($($m:ident :: $n:ident),* $(,)?) => {
        #[used]
        static HKEEP: &[$crate::Keep] = &[$($crate::Keep($m::$n as *const ())),*];
        fn main() {
            let _ = std::hint::black_box(HKEEP.len());
            $crate::main(&[$((stringify!($n), $m::$n as extern "C" fn())),*]);
        }
    };
}
