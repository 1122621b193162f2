//! Files in memory. Each step which changes anything may fail or end the
//! process, before, after or half way, when the harness allows faults.
use crate::stub::{self, Global};
use std::io::{Error, ErrorKind, Result};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

#[derive(Clone)]
pub enum Node {
    Dir,
    File(usize),
}
pub struct Fs {
    pub inodes: Vec<Vec<u8>>,
    pub tree: Vec<(Vec<u8>, Node)>,
    /// Bytes handed over but not yet in the file: number of the open file, its inode, bytes.
    inflight: Vec<(usize, usize, usize, Vec<u8>)>,
    opened: usize,
    /// Faults still allowed.
    pub crashes: u32,
    pub errors: u32,
    /// Reads and writes which may stop short of what was asked for, still allowed.
    pub shorts: u32,
    /// Every path which was ever used.
    pub used: Vec<Vec<u8>>,
    pub log: bool,
    /// Whether the process ends because power is lost, and then what is kept for sure.
    power: Option<Kept>,
}
/// An operation on directories.
#[derive(Clone)]
enum Change {
    Link(Vec<u8>, Node),
    Unlink(Vec<u8>),
    Rename(Vec<u8>, Vec<u8>, Node),
}
struct Kept {
    tree: Vec<(Vec<u8>, Node)>,
    /// What was done to directories since.
    changes: Vec<Change>,
    /// For those files with writes which are not kept for sure: what was there before.
    old: Vec<(usize, Vec<u8>)>,
}
/// The end of the process is a loss of power, until it happens. All there is now is kept.
pub fn may_lose_power() {
    let f = FS.get();
    f.power = Some(Kept { tree: f.tree.clone(), changes: vec![], old: vec![] });
}
/// Of what was not synchronised any part may be lost.
fn lose_power() {
    let f = FS.get();
    let Some(k) = f.power.take() else { return };
    // the first changes of directories, or all but one
    let n = k.changes.len();
    let c = if n == 0 { 0 } else { rt::choice(2 * n as u32) as usize };
    let (upto, skip) = if c <= n { (c, n) } else { (n, c - n - 1) };
    f.tree = k.tree;
    for (i, c) in k.changes.into_iter().enumerate() {
        if i >= upto || i == skip {
            continue;
        }
        match c {
            Change::Link(p, n) => {
                unlink(&p);
                f.tree.push((p, n));
            }
            Change::Unlink(p) => unlink(&p),
            Change::Rename(p, q, n) => {
                unlink(&p);
                unlink(&q);
                f.tree.push((q, n));
            }
        }
    }
    // nothing is in a directory which is not there
    loop {
        let l = f.tree.len();
        let t = f.tree.clone();
        f.tree.retain(|e| parent(&e.0).is_empty() || t.iter().any(|d| d.0 == parent(&e.0)));
        if f.tree.len() == l {
            break;
        }
    }
    for (i, old) in k.old {
        if !f.tree.iter().any(|e| matches!(e.1, Node::File(j) if i == j)) || f.inodes[i] == old {
            continue;
        }
        let d = &mut f.inodes[i];
        match rt::choice(4) {
            0 => {}
            1 => *d = old,
            2 => d.truncate(d.len() / 2),
            _ => d.fill(0),
        }
    }
}
/// The content of a file is about to change.
fn touch(i: usize) {
    let f = FS.get();
    if let Some(k) = &mut f.power {
        if k.old.iter().all(|e| e.0 != i) {
            k.old.push((i, f.inodes[i].clone()));
        }
    }
}
fn changed(c: Change) {
    if let Some(k) = &mut FS.get().power {
        k.changes.push(c);
    }
}
fn link(p: Vec<u8>, n: Node) {
    changed(Change::Link(p.clone(), n.clone()));
    FS.get().tree.push((p, n));
}
/// What a file, or a directory, holds is kept from now on.
fn keep(i: usize) {
    let f = FS.get();
    if let Some(k) = &mut f.power {
        if i == DIR {
            k.tree = f.tree.clone();
            k.changes.clear();
        } else {
            k.old.retain(|e| e.0 != i);
        }
    }
}
const DIR: usize = usize::MAX;
static FS: Global<Fs> = Global::new(Fs {
    inodes: vec![],
    tree: vec![],
    inflight: vec![],
    opened: 0,
    crashes: 0,
    errors: 0,
    shorts: 0,
    used: vec![],
    log: false,
    power: None,
});
pub fn disk() -> &'static mut Fs {
    FS.get()
}
/// The process ends. If it dies, what is not in the files yet is lost or still gets there.
pub fn process_ended(dies: bool) {
    let f = FS.get();
    if f.power.is_some() {
        settle_of(|_| true);
        return lose_power();
    }
    if f.inflight.is_empty() {
        return;
    }
    if dies && rt::choice(2) == 0 {
        f.inflight.clear();
    } else {
        settle_of(|_| true);
    }
}
type Write = (usize, usize, usize, Vec<u8>);
fn settle_of(which: impl Fn(&Write) -> bool) {
    let mut rest = vec![];
    for w in std::mem::take(&mut FS.get().inflight) {
        if which(&w) {
            put(w.1, w.2, &w.3);
        } else {
            rest.push(w);
        }
    }
    FS.get().inflight = rest;
}
fn put(inode: usize, at: usize, b: &[u8]) {
    touch(inode);
    let d = &mut FS.get().inodes[inode];
    if d.len() < at + b.len() {
        d.resize(at + b.len(), 0);
    }
    d[at..at + b.len()].copy_from_slice(b);
}
fn os(n: i32) -> Error {
    Error::from_raw_os_error(n)
}
/// As the operating system resolves it: absolute, without `.` and `..`.
fn resolve(p: &Path) -> Result<Vec<u8>> {
    let b = p.as_os_str().as_bytes();
    let f = FS.get();
    if f.log {
        f.used.push(b.to_vec());
    }
    if b.is_empty() {
        return Err(os(2));
    }
    if b.contains(&0) {
        return Err(ErrorKind::InvalidInput.into());
    }
    let mut out: Vec<Vec<u8>> = vec![];
    if b[0] != b'/' {
        out.push(b"cwd".to_vec());
    }
    for c in b.split(|c| *c == b'/') {
        if c.len() > 255 {
            return Err(os(36));
        }
        if c.is_empty() || c == b"." {
            continue;
        }
        if c == b".." {
            out.pop();
        } else {
            out.push(c.to_vec());
        }
    }
    let mut r = vec![];
    for c in out {
        r.push(b'/');
        r.extend(c);
    }
    Ok(r)
}
fn find(p: &[u8]) -> Option<Node> {
    if p.is_empty() {
        return Some(Node::Dir);
    }
    FS.get().tree.iter().find(|e| e.0 == p).map(|e| e.1.clone())
}
fn parent(p: &[u8]) -> &[u8] {
    &p[..p.iter().rposition(|c| *c == b'/').unwrap_or(0)]
}
fn need_parent(p: &[u8]) -> Result<()> {
    match find(parent(p)) {
        Some(Node::Dir) => Ok(()),
        Some(_) => Err(os(20)),
        None => Err(os(2)),
    }
}
fn unlink(p: &[u8]) {
    FS.get().tree.retain(|e| e.0 != p);
}
#[derive(PartialEq)]
enum Act {
    Go,
    Fail,
    CrashAfter,
}
/// What happens at a step: fine, an error, or the end of the process before or after it.
async fn step() -> Act {
    stub::point().await;
    gone().await;
    let f = FS.get();
    let (c, e) = (f.crashes > 0, f.errors > 0);
    if !c && !e {
        return Act::Go;
    }
    let k = rt::choice(1 + 2 * c as u32 + e as u32);
    if k == 0 {
        return Act::Go;
    }
    if c && k <= 2 {
        f.crashes -= 1;
        if k == 1 {
            die().await;
        }
        return Act::CrashAfter;
    }
    f.errors -= 1;
    Act::Fail
}
/// How many of these bytes are read or written at once: all, or not.
pub(crate) fn part(n: usize) -> usize {
    let f = FS.get();
    if f.shorts > 0 && n > 1 && rt::choice(2) == 1 {
        f.shorts -= 1;
        return n / 2;
    }
    n
}
async fn die() {
    stub::crash();
    std::future::pending::<()>().await
}
/// Nothing is done after the end of the process.
async fn gone() {
    if stub::crashed() {
        std::future::pending::<()>().await
    }
}
async fn end(a: Act) {
    if a == Act::CrashAfter {
        die().await
    }
}

#[derive(Debug)]
pub struct File {
    id: usize,
    inode: usize,
    at: usize,
}
impl Drop for File {
    fn drop(&mut self) {
        // what was handed over gets there in the end, unless the process ends first
        if FS.get().crashes == 0 {
            settle_of(|w| w.0 == self.id);
        }
    }
}
impl File {
    fn new(inode: usize) -> File {
        let f = FS.get();
        f.opened += 1;
        File { id: f.opened, inode, at: 0 }
    }
    pub async fn open(p: impl AsRef<Path>) -> Result<File> {
        OpenOptions::new().read(true).open(p).await
    }
    pub async fn create(p: impl AsRef<Path>) -> Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p).await
    }
    pub async fn create_new(p: impl AsRef<Path>) -> Result<File> {
        OpenOptions::new().write(true).create_new(true).open(p).await
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub(crate) async fn read_some(&mut self, b: &mut [u8]) -> Result<usize> {
        stub::point().await;
        if self.inode == DIR {
            return Err(os(21));
        }
        let n = part(b.len().min(FS.get().inodes[self.inode].len().saturating_sub(self.at)));
        let d = &FS.get().inodes[self.inode];
        b[..n].copy_from_slice(&d[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
    pub(crate) async fn buffer(&mut self, b: &[u8]) -> Result<()> {
        self.settle().await?;
        gone().await;
        if !b.is_empty() {
            FS.get().inflight.push((self.id, self.inode, self.at, b.to_vec()));
            self.at += b.len();
        }
        Ok(())
    }
    pub(crate) async fn settle(&self) -> Result<()> {
        let Some(i) = FS.get().inflight.iter().position(|w| w.0 == self.id) else { return Ok(()) };
        stub::point().await;
        gone().await;
        let (_, inode, at, b) = FS.get().inflight.remove(i);
        let f = FS.get();
        let (c, e) = (f.crashes > 0, f.errors > 0);
        // any part of the bytes may have got there
        let k = if c || e { rt::choice(1 + 3 * c as u32 + 2 * e as u32) } else { 0 };
        if k == 0 {
            put(inode, at, &b);
            return Ok(());
        }
        let crash = c && k <= 3;
        let part = match if crash { k } else { k - 3 * c as u32 } {
            1 => 0,
            2 => b.len() / 2,
            _ => b.len() - 1,
        };
        put(inode, at, &b[..part]);
        if crash {
            f.crashes -= 1;
            die().await;
        }
        f.errors -= 1;
        Err(os(28))
    }
    pub(crate) fn seek_to(&mut self, p: std::io::SeekFrom) -> Result<u64> {
        let (from, d) = match p {
            std::io::SeekFrom::Start(n) => (0, n as i64),
            std::io::SeekFrom::Current(n) => (self.at, n),
            std::io::SeekFrom::End(_) if self.inode == DIR => return Err(os(22)),
            std::io::SeekFrom::End(n) => (FS.get().inodes[self.inode].len(), n),
        };
        self.at = usize::try_from(from as i64 + d).map_err(|_| os(22))?;
        Ok(self.at as u64)
    }
    pub async fn metadata(&self) -> Result<Metadata> {
        Ok(Metadata(Some(self.inode).filter(|i| *i != DIR)))
    }
    async fn sync(&self) -> Result<()> {
        self.settle().await?;
        match step().await {
            Act::Fail => Err(os(5)),
            a => {
                keep(self.inode);
                end(a).await;
                Ok(())
            }
        }
    }
    pub async fn sync_all(&self) -> Result<()> {
        self.sync().await
    }
    pub async fn sync_data(&self) -> Result<()> {
        self.sync().await
    }
    pub async fn set_len(&self, n: u64) -> Result<()> {
        self.settle().await?;
        match step().await {
            Act::Fail => Err(os(28)),
            a => {
                touch(self.inode);
                FS.get().inodes[self.inode].resize(n as usize, 0);
                end(a).await;
                Ok(())
            }
        }
    }
}
#[derive(Clone, Default, Debug)]
pub struct OpenOptions {
    write: bool,
    append: bool,
    truncate: bool,
    create: bool,
    create_new: bool,
}
impl OpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn read(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn write(&mut self, x: bool) -> &mut Self {
        self.write = x;
        self
    }
    pub fn append(&mut self, x: bool) -> &mut Self {
        self.append = x;
        self
    }
    pub fn truncate(&mut self, x: bool) -> &mut Self {
        self.truncate = x;
        self
    }
    pub fn create(&mut self, x: bool) -> &mut Self {
        self.create = x;
        self
    }
    pub fn create_new(&mut self, x: bool) -> &mut Self {
        self.create_new = x;
        self
    }
    pub async fn open(&self, p: impl AsRef<Path>) -> Result<File> {
        let p = resolve(p.as_ref())?;
        let a = if self.create || self.create_new || self.truncate { step().await } else { Act::Go };
        if a == Act::Fail {
            return Err(os(28));
        }
        let f = match find(&p) {
            Some(Node::Dir) if self.write || self.create || self.create_new => return Err(os(21)),
            Some(Node::Dir) => File::new(DIR),
            Some(Node::File(_)) if self.create_new => return Err(os(17)),
            Some(Node::File(i)) => {
                settle_of(|w| w.1 == i);
                if self.truncate {
                    touch(i);
                    FS.get().inodes[i].clear();
                }
                let mut f = File::new(i);
                if self.append {
                    f.at = FS.get().inodes[i].len();
                }
                f
            }
            None => {
                need_parent(&p)?;
                if !self.create && !self.create_new {
                    return Err(os(2));
                }
                let d = FS.get();
                d.inodes.push(vec![]);
                let i = d.inodes.len() - 1;
                link(p, Node::File(i));
                File::new(i)
            }
        };
        end(a).await;
        Ok(f)
    }
}
pub async fn create_dir(p: impl AsRef<Path>) -> Result<()> {
    let p = resolve(p.as_ref())?;
    let a = step().await;
    if a == Act::Fail {
        return Err(os(28));
    }
    if find(&p).is_some() {
        return Err(os(17));
    }
    need_parent(&p)?;
    link(p, Node::Dir);
    end(a).await;
    Ok(())
}
/// All at once, as nothing depends on a part of it.
pub fn make_dirs(p: &Path) -> Result<()> {
    let p = resolve(p)?;
    for i in (1..=p.len()).filter(|i| *i == p.len() || p[*i] == b'/') {
        match find(&p[..i]) {
            None => link(p[..i].to_vec(), Node::Dir),
            Some(Node::Dir) => {}
            Some(_) => return Err(os(20)),
        }
    }
    Ok(())
}
pub async fn create_dir_all(p: impl AsRef<Path>) -> Result<()> {
    let a = step().await;
    if a == Act::Fail {
        return Err(os(28));
    }
    make_dirs(p.as_ref())?;
    end(a).await;
    Ok(())
}
pub async fn rename(from: impl AsRef<Path>, to: impl AsRef<Path>) -> Result<()> {
    let (from, to) = (resolve(from.as_ref())?, resolve(to.as_ref())?);
    let a = step().await;
    if a == Act::Fail {
        return Err(os(5));
    }
    let n = find(&from).ok_or_else(|| os(2))?;
    need_parent(&to)?;
    if let Some(Node::Dir) = find(&to) {
        return Err(os(21));
    }
    unlink(&from);
    unlink(&to);
    changed(Change::Rename(from, to.clone(), n.clone()));
    FS.get().tree.push((to, n));
    end(a).await;
    Ok(())
}
pub async fn remove_file(p: impl AsRef<Path>) -> Result<()> {
    let p = resolve(p.as_ref())?;
    let a = step().await;
    if a == Act::Fail {
        return Err(os(5));
    }
    match find(&p) {
        Some(Node::File(_)) => {
            unlink(&p);
            changed(Change::Unlink(p));
        }
        Some(Node::Dir) => return Err(os(21)),
        None => return Err(os(2)),
    }
    end(a).await;
    Ok(())
}
pub async fn remove_dir_all(p: impl AsRef<Path>) -> Result<()> {
    let p = resolve(p.as_ref())?;
    let a = step().await;
    if a == Act::Fail {
        return Err(os(5));
    }
    let mut q = p.clone();
    q.push(b'/');
    let gone: Vec<_> = FS.get().tree.iter().filter(|e| e.0 == p || e.0.starts_with(&q)).map(|e| e.0.clone()).collect();
    for g in gone.into_iter().rev() {
        unlink(&g);
        changed(Change::Unlink(g));
    }
    end(a).await;
    Ok(())
}
pub async fn read(p: impl AsRef<Path>) -> Result<Vec<u8>> {
    let f = File::open(p).await?;
    if f.inode == DIR {
        return Err(os(21));
    }
    Ok(FS.get().inodes[f.inode].clone())
}
pub async fn write(p: impl AsRef<Path>, b: impl AsRef<[u8]>) -> Result<()> {
    let mut f = File::create(p).await?;
    f.buffer(b.as_ref()).await?;
    f.settle().await
}
pub async fn copy(from: impl AsRef<Path>, to: impl AsRef<Path>) -> Result<u64> {
    let b = read(from).await?;
    write(to, &b).await?;
    Ok(b.len() as u64)
}
pub async fn read_to_string(p: impl AsRef<Path>) -> Result<String> {
    String::from_utf8(read(p).await?).map_err(|_| ErrorKind::InvalidData.into())
}
pub async fn hard_link(from: impl AsRef<Path>, to: impl AsRef<Path>) -> Result<()> {
    let (from, to) = (resolve(from.as_ref())?, resolve(to.as_ref())?);
    let a = step().await;
    if a == Act::Fail {
        return Err(os(5));
    }
    let n = find(&from).ok_or_else(|| os(2))?;
    need_parent(&to)?;
    if find(&to).is_some() {
        return Err(os(17));
    }
    link(to, n);
    end(a).await;
    Ok(())
}
pub async fn remove_dir(p: impl AsRef<Path>) -> Result<()> {
    let p = resolve(p.as_ref())?;
    let a = step().await;
    if a == Act::Fail {
        return Err(os(5));
    }
    match find(&p) {
        Some(Node::Dir) if FS.get().tree.iter().all(|e| parent(&e.0) != &p[..]) => {
            unlink(&p);
            changed(Change::Unlink(p));
        }
        Some(Node::Dir) => return Err(os(39)),
        Some(_) => return Err(os(20)),
        None => return Err(os(2)),
    }
    end(a).await;
    Ok(())
}
#[derive(Debug)]
pub struct DirEntry(Vec<u8>);
impl DirEntry {
    pub fn path(&self) -> PathBuf {
        PathBuf::from(std::ffi::OsStr::from_bytes(&self.0))
    }
    pub fn file_name(&self) -> std::ffi::OsString {
        std::ffi::OsStr::from_bytes(&self.0[parent(&self.0).len() + 1..]).to_owned()
    }
    pub async fn metadata(&self) -> Result<Metadata> {
        metadata(self.path()).await
    }
    pub async fn file_type(&self) -> Result<Metadata> {
        metadata(self.path()).await
    }
}
#[derive(Debug)]
pub struct ReadDir(std::vec::IntoIter<DirEntry>);
impl ReadDir {
    pub async fn next_entry(&mut self) -> Result<Option<DirEntry>> {
        Ok(self.0.next())
    }
    pub(crate) fn next(&mut self) -> Option<DirEntry> {
        self.0.next()
    }
}
pub async fn read_dir(p: impl AsRef<Path>) -> Result<ReadDir> {
    let p = resolve(p.as_ref())?;
    match find(&p) {
        Some(Node::Dir) => {}
        Some(_) => return Err(os(20)),
        None => return Err(os(2)),
    }
    stub::point().await;
    let l: Vec<_> = FS.get().tree.iter().filter(|e| parent(&e.0) == &p[..]).map(|e| DirEntry(e.0.clone())).collect();
    Ok(ReadDir(l.into_iter()))
}
pub async fn symlink_metadata(p: impl AsRef<Path>) -> Result<Metadata> {
    metadata(p).await
}
pub async fn try_exists(p: impl AsRef<Path>) -> Result<bool> {
    Ok(find(&resolve(p.as_ref())?).is_some())
}
#[derive(Debug, Clone)]
pub struct Metadata(Option<usize>);
impl Metadata {
    pub fn is_file(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_symlink(&self) -> bool {
        false
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn file_type(&self) -> Metadata {
        self.clone()
    }
    pub fn is_dir(&self) -> bool {
        self.0.is_none()
    }
    pub fn len(&self) -> u64 {
        self.0.map_or(0, |i| FS.get().inodes[i].len() as u64)
    }
}
pub async fn metadata(p: impl AsRef<Path>) -> Result<Metadata> {
    match find(&resolve(p.as_ref())?) {
        Some(Node::Dir) => Ok(Metadata(None)),
        Some(Node::File(i)) => Ok(Metadata(Some(i))),
        None => Err(os(2)),
    }
}
pub async fn canonicalize(p: impl AsRef<Path>) -> Result<PathBuf> {
    let p = resolve(p.as_ref())?;
    find(&p).ok_or_else(|| os(2))?;
    Ok(PathBuf::from(std::ffi::OsStr::from_bytes(&p)))
}

/// The same for those who do not wait: nothing else runs meanwhile.
pub mod blocking {
    use super::{os, stub, Result};
    pub use super::{DirEntry, Metadata};
    use std::future::Future;
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::path::{Path, PathBuf};
    pub(crate) fn now<T>(f: impl Future<Output = Result<T>>) -> Result<T> {
        stub::now(f).unwrap_or_else(|| Err(os(5)))
    }
    macro_rules! same {
        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(pub fn $f($($a: $t),*) -> Result<$r> {
            now(super::$f($($a),*))
        })* };
    }
    same! {
        create_dir(p: impl AsRef<Path>) -> ();
        create_dir_all(p: impl AsRef<Path>) -> ();
        rename(p: impl AsRef<Path>, q: impl AsRef<Path>) -> ();
        hard_link(p: impl AsRef<Path>, q: impl AsRef<Path>) -> ();
        copy(p: impl AsRef<Path>, q: impl AsRef<Path>) -> u64;
        remove_file(p: impl AsRef<Path>) -> ();
        remove_dir(p: impl AsRef<Path>) -> ();
        remove_dir_all(p: impl AsRef<Path>) -> ();
        read(p: impl AsRef<Path>) -> Vec<u8>;
        read_to_string(p: impl AsRef<Path>) -> String;
        write(p: impl AsRef<Path>, b: impl AsRef<[u8]>) -> ();
        metadata(p: impl AsRef<Path>) -> Metadata;
        symlink_metadata(p: impl AsRef<Path>) -> Metadata;
        canonicalize(p: impl AsRef<Path>) -> PathBuf;
    }
    pub fn exists(p: impl AsRef<Path>) -> Result<bool> {
        now(super::try_exists(p))
    }
    pub struct ReadDir(super::ReadDir);
    impl Iterator for ReadDir {
        type Item = Result<DirEntry>;
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next().map(Ok)
        }
    }
    pub fn read_dir(p: impl AsRef<Path>) -> Result<ReadDir> {
        now(super::read_dir(p)).map(ReadDir)
    }
    #[derive(Debug)]
    pub struct File(super::File);
    #[derive(Clone, Default, Debug)]
    pub struct OpenOptions(super::OpenOptions);
    macro_rules! options {
        ($($f:ident)*) => { $(pub fn $f(&mut self, x: bool) -> &mut Self {
            self.0.$f(x);
            self
        })* };
    }
    impl OpenOptions {
        pub fn new() -> Self {
            Self::default()
        }
        options!(read write append truncate create create_new);
        pub fn open(&self, p: impl AsRef<Path>) -> Result<File> {
            now(self.0.open(p)).map(File)
        }
    }
    impl File {
        pub fn open(p: impl AsRef<Path>) -> Result<File> {
            now(super::File::open(p)).map(File)
        }
        pub fn create(p: impl AsRef<Path>) -> Result<File> {
            now(super::File::create(p)).map(File)
        }
        pub fn create_new(p: impl AsRef<Path>) -> Result<File> {
            now(super::File::create_new(p)).map(File)
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn sync_all(&self) -> Result<()> {
            now(async {
                match super::step().await {
                    super::Act::Fail => Err(os(5)),
                    a => {
                        super::keep(self.0.inode);
                        super::end(a).await;
                        Ok(())
                    }
                }
            })
        }
        pub fn sync_data(&self) -> Result<()> {
            self.sync_all()
        }
        pub fn set_len(&self, n: u64) -> Result<()> {
            super::touch(self.0.inode);
            super::FS.get().inodes[self.0.inode].resize(n as usize, 0);
            Ok(())
        }
        pub fn metadata(&self) -> Result<Metadata> {
            now(self.0.metadata())
        }
    }
    impl Read for File {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            now(self.0.read_some(b))
        }
    }
    impl Write for File {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            now(async {
                self.0.buffer(b).await?;
                self.0.settle().await?;
                Ok(b.len())
            })
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Seek for File {
        fn seek(&mut self, p: SeekFrom) -> Result<u64> {
            self.0.seek_to(p)
        }
    }
}

/// What `Path::exists` and the like ask. Only for paths: an open file which is
/// asked about is a real one.
#[no_mangle]
unsafe extern "C" fn statx(fd: i32, path: *const std::ffi::c_char, flags: i32, mask: u32, out: *mut u8) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
    }
    if path.is_null() {
        *__errno_location() = 14;
        return -1;
    }
    if *path == 0 {
        return syscall(332, fd, path, flags, mask, out) as i32;
    }
    let p = Path::new(std::ffi::OsStr::from_bytes(std::ffi::CStr::from_ptr(path).to_bytes()));
    let r = resolve(p).and_then(|p| find(&p).ok_or_else(|| os(2)));
    match r {
        Ok(n) => {
            std::ptr::write_bytes(out, 0, 256);
            let (mode, len) = match n {
                Node::Dir => (0o040755u16, 0),
                Node::File(i) => (0o100644, FS.get().inodes[i].len() as u64),
            };
            (out as *mut u32).write(0x7ff);
            (out.add(28) as *mut u16).write(mode);
            (out.add(40) as *mut u64).write(len);
            0
        }
        Err(e) => {
            *__errno_location() = e.raw_os_error().unwrap_or(22);
            -1
        }
    }
}
