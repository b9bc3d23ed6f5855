//! The simulated disk: volatile and durable content, metadata journal, capacity, damage by power loss.
use crate::rng::Rng;
use std::collections::BTreeMap;

pub type Image = BTreeMap<String, Vec<u8>>;

#[derive(Clone)]
enum D {
    W(usize, Vec<u8>),
    T(usize),
}
#[derive(Default, Clone)]
pub struct Inode {
    pub data: Vec<u8>,
    durable: Vec<u8>,
    dirty: Vec<D>,
    poisoned: bool, // an fsync failed: these pages will never be written back
    pub dir: bool,
    mtime: i64,
}
#[derive(Clone)]
enum M {
    Set(String, usize),
    Del(String),
    Mv(String, String),
}
/// an open file description: descriptors made by dup share one
pub struct OpenFile {
    pub ino: usize,
    pub off: usize,
    pub append: bool,
    pub rd: bool,
    pub wr: bool,
    refs: usize,
    /// 0 none, 1 shared, 2 exclusive
    lock: u8,
}
#[derive(Default)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    durable_names: BTreeMap<String, usize>,
    journal: Vec<M>,
    fds: Vec<Option<usize>>,
    ofds: Vec<OpenFile>,
    pub capacity: Option<usize>,
}
pub const FD0: i64 = 1000;
const MAX_FDS: usize = 64;

/// what relative paths are relative to: /sim until the library changes it
static mut CWD: String = String::new();
pub fn cwd() -> &'static str {
    let c = unsafe { &*std::ptr::addr_of!(CWD) };
    if c.is_empty() { "/sim" } else { c }
}
pub fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{p}", cwd()) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}

impl Fs {
    pub fn from_image(img: &Image) -> Fs {
        let mut fs = Fs::default();
        for d in ["/", "/sim", "/sim/sub", "/tmp"] {
            fs.add(d, vec![], true);
        }
        for (n, b) in img {
            if let Some(d) = n.strip_suffix("//") {
                fs.add(d, vec![], true);
            } else {
                fs.add(n, b.clone(), false);
            }
        }
        fs.durable_names = fs.names.clone();
        fs
    }
    fn add(&mut self, n: &str, b: Vec<u8>, dir: bool) {
        if self.names.contains_key(n) {
            return;
        }
        self.inodes.push(Inode { durable: b.clone(), data: b, dir, ..Default::default() });
        self.names.insert(n.into(), self.inodes.len() - 1);
    }
    /// what a restarted process finds after the old one was killed or ended
    pub fn image(&self) -> Image {
        self.names.iter().map(|(n, &i)| if self.inodes[i].dir { (format!("{n}//"), vec![]) } else { (n.clone(), self.inodes[i].data.clone()) }).collect()
    }
    /// what is left after a power cut
    pub fn power_image(&self, seed: u64) -> Image {
        let mut r = Rng::new(seed ^ 0x706f_7765_72);
        let mut names = self.durable_names.clone();
        let k = match r.below(4) {
            0 => 0,
            1 => self.journal.len(),
            _ => r.usize(self.journal.len() + 1),
        };
        for m in &self.journal[..k] {
            apply(&mut names, m);
        }
        let mut cache: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        let mut out = Image::new();
        for (n, &i) in &names {
            let ino = &self.inodes[i];
            if ino.dir {
                out.insert(format!("{n}//"), vec![]);
                continue;
            }
            let b = cache.entry(i).or_insert_with(|| ino.after_power(&mut r)).clone();
            out.insert(n.clone(), b);
        }
        out
    }
    fn used(&self) -> usize {
        // every inode reachable by name or open descriptor
        let mut seen = vec![false; self.inodes.len()];
        for &i in self.names.values() {
            seen[i] = true;
        }
        for f in self.ofds.iter().filter(|f| f.refs > 0) {
            seen[f.ino] = true;
        }
        self.inodes.iter().zip(seen).filter(|(_, s)| *s).map(|(i, _)| i.data.len()).sum()
    }
    pub fn is_dir(&self, p: &str) -> bool {
        self.names.get(p).is_some_and(|&i| self.inodes[i].dir)
    }
    pub fn file(&mut self, fd: i64) -> Result<&mut OpenFile, i64> {
        let o = self.ofd(fd)?;
        Ok(&mut self.ofds[o])
    }
    fn ofd(&self, fd: i64) -> Result<usize, i64> {
        self.fds.get((fd - FD0).max(0) as usize).filter(|_| fd >= FD0).copied().flatten().ok_or(-libc::EBADF as i64)
    }
    /// Ok(true): done; Ok(false): somebody else holds a lock on the file that excludes this one
    pub fn lock(&mut self, fd: i64, want: u8) -> Result<(usize, bool), i64> {
        let o = self.ofd(fd)?;
        let ino = self.ofds[o].ino;
        let held = self.ofds.iter().enumerate().any(|(i, f)| i != o && f.refs > 0 && f.ino == ino && (f.lock == 2 || f.lock == 1 && want == 2));
        let free = want == 0 || !held;
        if free {
            self.ofds[o].lock = want;
        }
        Ok((ino, free))
    }
    pub fn chdir(&mut self, p: &str) -> i64 {
        let p = norm(p);
        match self.names.get(&p) {
            None => -libc::ENOENT as i64,
            Some(&i) if !self.inodes[i].dir => -libc::ENOTDIR as i64,
            Some(_) => {
                unsafe { CWD = p };
                0
            }
        }
    }
    pub fn open(&mut self, path: &str, flags: i32, now: i64) -> i64 {
        let acc = flags & libc::O_ACCMODE;
        let (rd, wr) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
        let slash = path.ends_with('/');
        let p = norm(path);
        let ino = match self.names.get(&p).copied() {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return -libc::EEXIST as i64;
                }
                if self.inodes[i].dir && wr {
                    return -libc::EISDIR as i64;
                }
                if !self.inodes[i].dir && (slash || flags & libc::O_DIRECTORY != 0) {
                    return -libc::ENOTDIR as i64;
                }
                if flags & libc::O_TRUNC != 0 && wr {
                    self.inodes[i].set_len(0, now);
                }
                i
            }
            None => {
                if flags & libc::O_TMPFILE == libc::O_TMPFILE {
                    return -libc::EOPNOTSUPP as i64;
                }
                if flags & libc::O_CREAT == 0 {
                    return -libc::ENOENT as i64;
                }
                if slash {
                    return -libc::EISDIR as i64;
                }
                if p.rsplit('/').next().unwrap().len() > 255 {
                    return -libc::ENAMETOOLONG as i64;
                }
                let par = parent(&p);
                if !self.is_dir(&par) {
                    return if self.names.contains_key(&par) { -libc::ENOTDIR } else { -libc::ENOENT } as i64;
                }
                self.inodes.push(Inode { mtime: now, ..Default::default() });
                let i = self.inodes.len() - 1;
                self.meta(M::Set(p, i));
                i
            }
        };
        self.ofds.push(OpenFile { ino, off: 0, append: flags & libc::O_APPEND != 0, rd, wr, refs: 0, lock: 0 });
        self.install(self.ofds.len() - 1)
    }
    fn install(&mut self, f: usize) -> i64 {
        if self.fds.iter().flatten().count() >= MAX_FDS {
            return -libc::EMFILE as i64;
        }
        self.ofds[f].refs += 1;
        match self.fds.iter().position(|x| x.is_none()) {
            Some(k) => {
                self.fds[k] = Some(f);
                FD0 + k as i64
            }
            None => {
                self.fds.push(Some(f));
                FD0 + self.fds.len() as i64 - 1
            }
        }
    }
    /// the path of an open directory
    pub fn dir_path(&mut self, fd: i64) -> Result<String, i64> {
        let ino = self.file(fd)?.ino;
        if !self.inodes[ino].dir {
            return Err(-libc::ENOTDIR as i64);
        }
        self.names.iter().find(|(_, &i)| i == ino).map(|(n, _)| n.clone()).ok_or(-libc::ENOENT as i64)
    }
    /// the entry after `last` of an open directory ("" to begin)
    pub fn next_entry(&mut self, fd: i64, last: &str) -> Result<Option<(String, usize)>, i64> {
        let d = self.dir_path(fd)?;
        let prefix = if d == "/" { d } else { d + "/" };
        Ok(self
            .names
            .range(prefix.clone()..)
            .take_while(|(n, _)| n.starts_with(&prefix))
            .map(|(n, &i)| (&n[prefix.len()..], i))
            .find(|(n, _)| !n.is_empty() && !n.contains('/') && *n > last)
            .map(|(n, i)| (n.to_string(), i)))
    }
    pub fn dup(&mut self, fd: i64) -> i64 {
        match self.ofd(fd) {
            Ok(f) => self.install(f),
            Err(e) => e,
        }
    }
    fn meta(&mut self, m: M) {
        apply(&mut self.names, &m);
        self.journal.push(m);
    }
    pub fn read(&mut self, fd: i64, n: usize, at: i64) -> Result<Vec<u8>, i64> {
        let f = self.file(fd)?;
        if !f.rd {
            return Err(-libc::EBADF as i64);
        }
        let (ino, off) = (f.ino, if at >= 0 { at as usize } else { f.off });
        if self.inodes[ino].dir {
            return Err(-libc::EISDIR as i64);
        }
        let d = &self.inodes[ino].data;
        let s = off.min(d.len());
        let e = (s + n).min(d.len());
        let v = d[s..e].to_vec();
        if at < 0 {
            self.file(fd)?.off = off + v.len();
        }
        Ok(v)
    }
    pub fn write(&mut self, fd: i64, b: &[u8], at: i64, now: i64) -> i64 {
        let used = if self.capacity.is_some() { self.used() } else { 0 };
        let cap = self.capacity;
        let f = match self.file(fd) {
            Ok(f) if f.wr => f,
            _ => return -libc::EBADF as i64,
        };
        let (ino, append, mut off) = (f.ino, f.append, if at >= 0 { at as usize } else { f.off });
        let cur = self.inodes[ino].data.len();
        if append {
            off = cur;
        }
        let mut n = b.len();
        if let Some(cap) = cap {
            let room = cap.saturating_sub(used) + cur.saturating_sub(off);
            if n > room {
                if room == 0 {
                    return -libc::ENOSPC as i64;
                }
                n = room;
            }
        }
        self.inodes[ino].write(off, &b[..n], now);
        if at < 0 {
            self.file(fd).unwrap().off = off + n;
        }
        n as i64
    }
    pub fn fsync(&mut self, fd: i64) -> i64 {
        let i = match self.file(fd) {
            Ok(f) => f.ino,
            Err(e) => return e,
        };
        self.inodes[i].commit();
        self.commit_names();
        0
    }
    pub fn fsync_failed(&mut self, fd: i64) {
        if let Ok(f) = self.file(fd) {
            let i = f.ino;
            self.inodes[i].poisoned = true;
        }
    }
    pub fn sync_all(&mut self) {
        for i in &mut self.inodes {
            i.commit();
        }
        self.commit_names();
    }
    fn commit_names(&mut self) {
        self.durable_names = self.names.clone();
        self.journal.clear();
    }
    /// the inode whose locks this ends, if it ends one
    pub fn close(&mut self, fd: i64) -> Result<Option<usize>, i64> {
        let o = self.ofd(fd)?;
        self.fds[(fd - FD0) as usize] = None;
        let f = &mut self.ofds[o];
        f.refs -= 1;
        Ok((f.refs == 0 && f.lock > 0).then_some(f.ino))
    }
    pub fn rename(&mut self, a: &str, b: &str, flags: i64) -> i64 {
        let (a, b) = (norm(a), norm(b));
        let Some(&i) = self.names.get(&a) else { return -libc::ENOENT as i64 };
        if !self.is_dir(&parent(&b)) {
            return -libc::ENOENT as i64;
        }
        if flags & 2 != 0 {
            let Some(&j) = self.names.get(&b) else { return -libc::ENOENT as i64 };
            self.meta(M::Set(b, i));
            self.meta(M::Set(a, j)); // (an exchange is atomic on a real disk; two entries only make it weaker)
            return 0;
        }
        if let Some(&j) = self.names.get(&b) {
            if flags & 1 != 0 {
                return -libc::EEXIST as i64;
            }
            if self.inodes[j].dir != self.inodes[i].dir {
                return if self.inodes[j].dir { -libc::EISDIR } else { -libc::ENOTDIR } as i64;
            }
            if i == j {
                return 0;
            }
        }
        if self.inodes[i].dir {
            return -libc::ENOTEMPTY as i64;
        }
        self.meta(M::Mv(a, b));
        0
    }
    pub fn unlink(&mut self, p: &str, dir: bool) -> i64 {
        let p = norm(p);
        match self.names.get(&p) {
            None => -libc::ENOENT as i64,
            Some(&i) if self.inodes[i].dir != dir => {
                if dir { -libc::ENOTDIR as i64 } else { -libc::EISDIR as i64 }
            }
            Some(_) => {
                if dir && self.names.keys().any(|k| k.starts_with(&format!("{p}/"))) {
                    return -libc::ENOTEMPTY as i64;
                }
                self.meta(M::Del(p));
                0
            }
        }
    }
    pub fn link(&mut self, a: &str, b: &str) -> i64 {
        let (a, b) = (norm(a), norm(b));
        let Some(&i) = self.names.get(&a) else { return -libc::ENOENT as i64 };
        if self.names.contains_key(&b) {
            return -libc::EEXIST as i64;
        }
        if !self.is_dir(&parent(&b)) || self.inodes[i].dir {
            return -libc::EPERM as i64;
        }
        self.meta(M::Set(b, i));
        0
    }
    pub fn mkdir(&mut self, p: &str) -> i64 {
        let p = norm(p);
        if self.names.contains_key(&p) {
            return -libc::EEXIST as i64;
        }
        if !self.is_dir(&parent(&p)) {
            return -libc::ENOENT as i64;
        }
        self.inodes.push(Inode { dir: true, ..Default::default() });
        let i = self.inodes.len() - 1;
        self.meta(M::Set(p, i));
        0
    }
    pub fn set_len(&mut self, ino: usize, len: usize, now: i64) -> i64 {
        let cur = self.inodes[ino].data.len();
        if let Some(cap) = self.capacity {
            if len > cur && self.used() + (len - cur) > cap {
                return -libc::ENOSPC as i64;
            }
        }
        if len > (1 << 30) {
            return -libc::EFBIG as i64;
        }
        self.inodes[ino].set_len(len, now);
        0
    }
    pub fn stat(&self, ino: usize) -> [i64; 4] {
        let i = &self.inodes[ino];
        [ino as i64 + 10, i.data.len() as i64, i.dir as i64, i.mtime]
    }
}

fn apply(names: &mut BTreeMap<String, usize>, m: &M) {
    match m {
        M::Set(p, i) => {
            names.insert(p.clone(), *i);
        }
        M::Del(p) => {
            names.remove(p);
        }
        M::Mv(a, b) => {
            if let Some(i) = names.remove(a) {
                names.insert(b.clone(), i);
            }
        }
    }
}
fn put(v: &mut Vec<u8>, off: usize, b: &[u8]) {
    if v.len() < off + b.len() {
        v.resize(off + b.len(), 0);
    }
    v[off..off + b.len()].copy_from_slice(b);
}
impl Inode {
    fn write(&mut self, off: usize, b: &[u8], now: i64) {
        put(&mut self.data, off, b);
        self.dirty.push(D::W(off, b.to_vec()));
        self.mtime = now;
    }
    fn set_len(&mut self, n: usize, now: i64) {
        self.data.resize(n, 0);
        self.dirty.push(D::T(n));
        self.mtime = now;
    }
    fn commit(&mut self) {
        if !self.poisoned {
            self.durable = self.data.clone();
            self.dirty.clear();
        }
    }
    fn after_power(&self, r: &mut Rng) -> Vec<u8> {
        let mut v = self.durable.clone();
        if self.dirty.is_empty() {
            return v;
        }
        match r.below(6) {
            0 => {}                          // nothing of the unsynced data reached the disk
            1 => v = self.data.clone(),      // all of it did
            2 => v = vec![0; self.data.len()], // the size did, the data did not
            3 => {
                // in order up to some byte
                let k = r.usize(self.dirty.len() + 1);
                for (j, d) in self.dirty.iter().enumerate() {
                    match d {
                        D::T(n) if j <= k => v.resize(*n, 0),
                        D::W(o, b) if j < k => put(&mut v, *o, b),
                        D::W(o, b) if j == k => put(&mut v, *o, &b[..r.usize(b.len() + 1)]),
                        _ => {}
                    }
                }
            }
            4 => {
                // truncations reached the disk, writes did not
                for d in &self.dirty {
                    if let D::T(n) = d {
                        v.resize(*n, 0)
                    }
                }
            }
            _ => {
                // any subset of sectors, in any order
                for d in &self.dirty {
                    match d {
                        D::T(n) => v.resize(*n, 0),
                        D::W(o, b) => {
                            let mut s = 0;
                            while s < b.len() {
                                let e = ((*o + s) / 512 * 512 + 512 - *o).min(b.len());
                                if r.p(0.6) {
                                    put(&mut v, *o + s, &b[s..e]);
                                }
                                s = e;
                            }
                        }
                    }
                }
                if r.p(0.5) && v.len() < self.data.len() {
                    v.resize(self.data.len(), 0);
                }
            }
        }
        v
    }
}
