//! Running the daemon on the stand-ins: one process at a time, files in memory.
use http::Method;
use std::ffi::{c_char, c_int, CStr};
use tokio::fs::disk;
use tokio::stub;

// The operating system, as far as the daemon asks it directly.
static mut BASE_LOCATION: *const c_char = std::ptr::null();
static mut EUID: u32 = 1000;
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const c_char) -> *const c_char {
    if CStr::from_ptr(n).to_bytes() == b"BASE_LOCATION" {
        return BASE_LOCATION;
    }
    std::ptr::null()
}
#[no_mangle]
pub extern "C" fn geteuid() -> u32 {
    unsafe { EUID }
}
/// The same keys for hashing everywhere, so that maps have the same order everywhere.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _: u32) -> isize {
    for i in 0..n {
        *b.add(i) = i as u8 + 1;
    }
    n as isize
}
fn path(p: *const c_char) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    std::ffi::OsStr::from_bytes(unsafe { CStr::from_ptr(p) }.to_bytes()).into()
}
fn answer(r: Option<std::io::Result<()>>) -> c_int {
    match r {
        Some(Ok(())) => 0,
        _ => -1,
    }
}
#[no_mangle]
pub extern "C" fn mkdir(p: *const c_char, _: u32) -> c_int {
    answer(Some(tokio::fs::make_dirs(&path(p))))
}
#[no_mangle]
pub extern "C" fn unlink(p: *const c_char) -> c_int {
    answer(stub::now(tokio::fs::remove_file(path(p))))
}
#[no_mangle]
pub extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    answer(stub::now(tokio::fs::rename(path(a), path(b))))
}
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_: c_int, b: *mut c_char, n: usize) -> c_int {
    if n > 1 {
        *b = b'!' as c_char;
        *b.add(1) = 0;
    }
    0
}
/// Nobody reads it at a terminal.
#[no_mangle]
pub extern "C" fn isatty(_: c_int) -> c_int {
    0
}
#[used]
static KEEP: [rt::Keep; 8] = [
    rt::Keep(isatty as *const ()),
    rt::Keep(__xpg_strerror_r as *const ()),
    rt::Keep(getenv as *const ()),
    rt::Keep(geteuid as *const ()),
    rt::Keep(getrandom as *const ()),
    rt::Keep(mkdir as *const ()),
    rt::Keep(unlink as *const ()),
    rt::Keep(rename as *const ()),
];

/// Where the daemon finds out to keep its files.
#[derive(Clone, Copy, PartialEq)]
pub enum Place {
    Told,
    Root,
    User,
}
static mut PLACE: Place = Place::Told;
pub fn place(p: Place) {
    unsafe { PLACE = p };
}
pub fn base() -> &'static str {
    match unsafe { PLACE } {
        Place::Told => "/d",
        Place::Root => "/etc/souris",
        Place::User => "/home/u/share/souris",
    }
}
/// The daemon starts on the files there are.
pub fn start() {
    unsafe {
        BASE_LOCATION = std::ptr::null();
        EUID = 1000;
        match PLACE {
            Place::Told => BASE_LOCATION = c"/d".as_ptr(),
            Place::Root => EUID = 0,
            Place::User => {}
        }
    }
    stub::add(Box::pin(sourisd::main()));
    stub::run();
}
/// The process ends, whatever it was doing.
pub fn kill() {
    let dies = stub::crashed();
    axum::stub::gone();
    stub::reset();
    tokio::fs::process_ended(dies);
}
pub fn restart() {
    kill();
    disk().crashes = 0;
    disk().errors = 0;
    start();
}
pub type Answer = (u16, Vec<u8>);
pub async fn ask(m: Method, path: String, pairs: Vec<(String, String)>, body: Vec<u8>) -> Answer {
    match axum::stub::dispatch(m, &path, pairs, body).await {
        Some((s, b)) => (s.as_u16(), b),
        None => (0, vec![]),
    }
}
pub fn pairs(p: &[(&str, &str)]) -> Vec<(String, String)> {
    p.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
/// One request, on its own. 0 if there was no answer.
pub fn req(m: Method, path: &str, p: &[(&str, &str)], body: Vec<u8>) -> Answer {
    let (path, p) = (path.to_string(), pairs(p));
    stub::block_on(async move { ask(m, path, p, body).await }).unwrap_or((0, vec![]))
}
