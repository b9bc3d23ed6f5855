//! The runtime of one simulated process ("incarnation"): scheduler, fault plan, simulated system calls, report.
//! It runs inside a forked child; everything here is touched only by the thread that holds the token, with `active` off.
use crate::fs::{cwd, norm, Fs, Image, FD0};
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::SeqCst};

pub const NC: usize = 6;
pub const MEM: usize = 0;
pub const ALLOC: usize = 1;
pub const IO: usize = 2;
pub const LOG: usize = 3;
pub const USER: usize = 4;
/// atomic accesses, which are also counted under MEM
pub const SYNC: usize = 5;
pub const CLS: [&str; NC] = ["mem", "alloc", "io", "log", "user", "sync"];

#[repr(C)]
pub struct St {
    pub active: i32,
    pub tid: i32,
    pub cnt: [u64; NC],
    pub stop: [u64; NC],
}
extern "C" {
    fn hk_st() -> *mut St;
    fn hk_learn(on: i32);
    fn hk_skip(k: i32, a: *const u8);
    fn hk_raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64;
}
#[inline]
pub fn st() -> &'static mut St {
    unsafe { &mut *hk_st() }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// give the token to another runnable thread
    Switch(u32),
    /// the process is killed here
    Kill,
    /// the machine loses power here
    Power(u64),
    /// killed / power lost after this system call took effect (a write: after that many 1/1000 of it)
    KillMid(u32),
    PowerMid(u32, u64),
    /// this system call fails (the n-th error it can have)
    Errno(u32),
    /// this and every later storage call fails
    ErrnoFrom(u32),
    /// a read or write transfers at most that many bytes
    Short(u32),
    Eintr,
    /// time passes (nanoseconds)
    Delay(u64),
    /// user code panics
    Panic,
    /// user code misbehaves in a way its owner interprets
    Lie(u32),
    /// from here to the end of the operation, user code of this class calls the library again and again
    Nest(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Point {
    pub t: usize,
    pub c: usize,
    pub n: u64,
    pub a: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Env {
    pub seed: u64,
    pub log_level: u8,
    /// 0 works, else the errno every write to stdout/stderr gives
    pub console: i32,
    pub pid: i32,
    /// memory accesses before an operation counts as runaway
    pub budget: u64,
    pub mem_limit: i64,
    pub capacity: Option<usize>,
    /// every read/write transfers at most this
    pub max_io: usize,
    /// format log messages
    pub fmt: bool,
    /// nanoseconds each system call takes at least
    pub io_ns: u64,
    /// 0: no environment variable is set, else the seed of the values they all have
    #[serde(default)]
    pub vars: u64,
    /// of 256 wakes of a waiting thread, so many let it run at once
    #[serde(default)]
    pub handoff: u32,
}
impl Default for Env {
    fn default() -> Self {
        Env { seed: 1, log_level: 0, console: 0, pid: 77, budget: 800_000_000, mem_limit: 1 << 30, capacity: None, max_io: usize::MAX, fmt: false, io_ns: 20_000, vars: 0, handoff: 0 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Done,
    Killed,
    PowerLost,
    Deadlock,
    Runaway,
    MemLimit,
    Died(i32),
    Signal(i32),
    CpuLimit,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Report {
    pub end: End,
    pub obs: Vec<serde_json::Value>,
    pub counts: Vec<[u64; NC]>,
    /// per thread, the kinds of its system calls in order
    pub ios: Vec<Vec<u8>>,
    pub trace: u64,
    pub fired: BTreeMap<String, u64>,
    pub switches: u64,
    pub sim_ns: u64,
    pub console: u64,
    pub console_text: String,
    pub peak: i64,
    pub unsup: Vec<String>,
    #[serde(skip)]
    pub image: Image,
    pub text: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Close,
    Fsync,
    Rename,
    Unlink,
    Stat,
    Seek,
    Trunc,
    Mkdir,
    Link,
    Sync,
    Console,
    Other,
}
pub const OPS: [&str; 16] = ["open", "create", "read", "write", "close", "fsync", "rename", "unlink", "stat", "seek", "trunc", "mkdir", "link", "sync", "console", "other"];
impl Op {
    fn errnos(self) -> &'static [i32] {
        use libc::*;
        match self {
            Op::Open => &[EACCES, EMFILE, EIO, ENFILE, ENOMEM],
            Op::Create => &[ENOSPC, EACCES, EROFS, EMFILE, EIO, EDQUOT],
            Op::Read => &[EIO],
            Op::Write => &[ENOSPC, EIO, EDQUOT, EFBIG],
            Op::Fsync | Op::Sync => &[EIO, ENOSPC, EDQUOT],
            Op::Rename => &[EIO, ENOSPC, EACCES, EROFS],
            Op::Unlink => &[EIO, EACCES, EROFS],
            Op::Trunc => &[EIO, ENOSPC],
            Op::Mkdir | Op::Link => &[ENOSPC, EACCES, EIO],
            Op::Stat | Op::Seek | Op::Other => &[EIO],
            Op::Close => &[EIO],
            Op::Console => &[EPIPE, EIO, EBADF, ENOSPC],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Block {
    No,
    Futex(usize, Option<u64>),
    Sleep(u64),
    Join(usize),
    Done,
}
struct Th {
    b: Block,
    timed_out: bool,
    sem: Box<AtomicU32>,
    plan: [Vec<(u64, Act)>; NC],
    pos: [usize; NC],
    slice_end: u64,
    /// memory accesses at which the running call counts as runaway
    limit: u64,
    ios: Vec<u8>,
    counts: [u64; NC],
    st: *mut St,
    harness: bool,
}
pub struct G {
    ths: Vec<Th>,
    cur: usize,
    main_sem: AtomicU32,
    pub now: u64,
    pub rng: Rng,
    pub fs: Fs,
    pub env: Env,
    sticky: Option<u32>,
    pub fired: BTreeMap<String, u64>,
    pub trace: u64,
    pub obs: Vec<serde_json::Value>,
    pub switches: u64,
    out: i32,
    pub console: u64,
    pub console_text: Vec<u8>,
    unsup: Vec<String>,
    t0: u64,
    text: Option<Vec<String>>,
    pub hard_fault: u64,
}
impl G {
    /// faults stop: nothing that is still planned makes a call fail
    pub fn heal(&mut self) {
        self.sticky = None;
        self.fs.capacity = None;
        for th in &mut self.ths {
            for v in &mut th.plan {
                v.retain(|x| !matches!(x.1, Act::Errno(_) | Act::ErrnoFrom(_)));
            }
            // positions move with the removed entries: recount what has passed
            let cnt = unsafe { if th.st.is_null() { [0; NC] } else { (*th.st).cnt } };
            for c in 0..NC {
                th.pos[c] = th.plan[c].iter().filter(|x| x.0 <= cnt[c]).count();
            }
        }
    }
}
static mut GP: *mut G = std::ptr::null_mut();
pub fn g() -> &'static mut G {
    unsafe { &mut *GP }
}
pub fn in_sim() -> bool {
    unsafe { !GP.is_null() }
}
/// set by `sim replay -v` and the determinism self-test: keep a readable trace
pub static mut TRACE_TEXT: bool = false;

const SLICE: u64 = 3_000_000;

fn raw_wait(a: &AtomicU32) {
    loop {
        if a.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
            return;
        }
        unsafe { hk_raw(libc::SYS_futex, a as *const _ as i64, 128, 0, 0, 0, 0) };
    }
}
fn raw_post(a: &AtomicU32) {
    a.store(1, SeqCst);
    unsafe { hk_raw(libc::SYS_futex, a as *const _ as i64, 129, 1, 0, 0, 0) };
}

pub fn me() -> usize {
    st().tid as usize
}
fn note(x: u64) {
    let g = g();
    g.trace = mix(g.trace ^ x);
}
pub fn log_text(f: impl FnOnce() -> String) {
    if let Some(t) = &mut g().text {
        t.push(f());
    }
}
/// The calling thread starts a new operation, which may make that many memory accesses again.
pub fn op_start() {
    let t = me();
    g().ths[t].limit = st().cnt[MEM].saturating_add(g().env.budget);
    recompute(t, MEM);
}
pub fn fired(k: &str) {
    *g().fired.entry(k.to_string()).or_insert(0) += 1;
}
fn recompute(t: usize, c: usize) {
    let th = &g().ths[t];
    let s = st();
    let mut v = th.plan[c].get(th.pos[c]).map_or(u64::MAX, |x| x.0);
    if c == MEM {
        v = v.min(th.limit).min(th.slice_end);
    }
    s.stop[c] = v;
}

/// Called at a point whose counter has just been incremented; performs planned switches/kills, returns other actions.
fn at_point(c: usize) -> Option<Act> {
    let t = me();
    let n = st().cnt[c];
    if c != MEM {
        note((t as u64) << 56 ^ (c as u64) << 48 ^ st().cnt[MEM]);
        log_text(|| format!("t{t} {} #{} at {}", CLS[c], st().cnt[c], st().cnt[MEM]));
    }
    if n < st().stop[c] {
        return None;
    }
    let mut other = None;
    loop {
        let th = &mut g().ths[t];
        match th.plan[c].get(th.pos[c]) {
            Some((k, a)) if *k <= n => {
                let a = a.clone();
                th.pos[c] += 1;
                match a {
                    Act::Switch(k) => {
                        if switch(k, Block::No) {
                            fired(&format!("preempt:{}", CLS[c]));
                        }
                    }
                    Act::Kill => {
                        fired(&format!("kill:{}", CLS[c]));
                        finish(End::Killed, None)
                    }
                    Act::Power(s) => {
                        fired(&format!("power-cut:{}", CLS[c]));
                        finish(End::PowerLost, Some(s))
                    }
                    Act::Delay(ns) => {
                        fired("delay");
                        advance(ns);
                    }
                    a => other = Some(a),
                }
            }
            _ => break,
        }
    }
    if c == MEM {
        if n >= g().ths[t].limit {
            finish(End::Runaway, None)
        }
        if n >= g().ths[t].slice_end {
            g().ths[t].slice_end = n + SLICE;
            switch(0, Block::No);
        }
    }
    recompute(t, c);
    other
}
#[no_mangle]
extern "C" fn rt_point(c: i32) {
    at_point(c as usize);
}
/// A point of class c in harness code that the library called.
pub fn point(c: usize) -> Option<Act> {
    if !in_sim() || st().tid < 0 {
        return None;
    }
    st().cnt[c] += 1;
    at_point(c)
}
pub fn advance(ns: u64) {
    g().now = g().now.saturating_add(ns);
}

fn runnable(i: usize) -> bool {
    g().ths[i].b == Block::No
}
fn b_done(t: usize) -> bool {
    g().ths[t].b == Block::Done
}
fn hand_to(n: usize) {
    g().cur = n;
    raw_post(&g().ths[n].sem);
}
/// The calling thread takes state `b` and lets another thread run; returns whether another thread ran.
fn switch(choice: u32, b: Block) -> bool {
    let t = me();
    let must = b != Block::No;
    g().ths[t].b = b;
    if b_done(t) && g().ths.iter().all(|x| x.b == Block::Done || !x.harness) {
        raw_post(&g().main_sem); // the process ends, whatever threads the library still has
        return true;
    }
    let n = g().ths.len();
    let cand: Vec<usize> = (1..=n).map(|k| (t + k) % n).filter(|&i| i != t && runnable(i)).collect();
    let next = if !cand.is_empty() {
        cand[choice as usize % cand.len()]
    } else if !must {
        return false;
    } else if let Some(i) = wake_by_time() {
        i
    } else {
        finish(End::Deadlock, None)
    };
    if next == t {
        return false;
    }
    g().switches += 1;
    note(0x5157 ^ (t as u64) << 32 ^ next as u64);
    log_text(|| format!("switch {t}->{next}"));
    let done = g().ths[t].b == Block::Done;
    hand_to(next);
    if !done {
        raw_wait(&g().ths[t].sem);
    }
    true
}
fn wake_by_time() -> Option<usize> {
    let mut best: Option<(u64, usize)> = None;
    for (i, th) in g().ths.iter().enumerate() {
        let d = match th.b {
            Block::Sleep(d) => d,
            Block::Futex(_, Some(d)) => d,
            _ => continue,
        };
        if best.is_none_or(|b| d < b.0) {
            best = Some((d, i));
        }
    }
    let (d, i) = best?;
    g().now = g().now.max(d);
    g().ths[i].timed_out = true;
    g().ths[i].b = Block::No;
    Some(i)
}

// ---------------------------------------------------------------- system calls
fn eff(op: Op, touch: &str) -> (Option<Act>, Option<i64>) {
    let g_ = g();
    let t = me();
    g_.ths[t].ios.push(op as u8);
    advance(g_.env.io_ns);
    st().cnt[IO] += 1;
    note(op as u64 | 0x10000);
    log_text(|| format!("t{t} io#{} {} {}", st().cnt[IO], OPS[op as usize], touch));
    let a = at_point(IO);
    if let Some(Act::ErrnoFrom(k)) = a {
        g().sticky = Some(k);
    }
    let fail = match (&a, g().sticky) {
        (Some(Act::Errno(k)), _) => Some(*k),
        (_, Some(k)) if !matches!(op, Op::Close | Op::Console) => Some(k),
        (Some(Act::Eintr), _) if matches!(op, Op::Open | Op::Create | Op::Read | Op::Write | Op::Fsync | Op::Trunc) => {
            fired(&format!("eintr:{}", OPS[op as usize]));
            log_text(|| "  EINTR".into());
            return (None, Some(-libc::EINTR as i64));
        }
        _ => None,
    };
    if let Some(k) = fail {
        let e = op.errnos();
        let e = e[k as usize % e.len()];
        fired(&format!("errno:{}", OPS[op as usize]));
        g().hard_fault += 1;
        log_text(|| format!("  fails with errno {e}"));
        return (None, Some(-e as i64));
    }
    (a, None)
}
fn after(a: &Option<Act>, op: Op) {
    match a {
        Some(Act::KillMid(_)) => {
            fired(&format!("kill-after:{}", OPS[op as usize]));
            finish(End::Killed, None)
        }
        Some(Act::PowerMid(_, s)) => {
            fired(&format!("power-cut-after:{}", OPS[op as usize]));
            finish(End::PowerLost, Some(*s))
        }
        _ => {}
    }
}
unsafe fn cs(p: *const libc::c_char) -> String {
    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
}
macro_rules! call {
    ($op:expr, $touch:expr, $body:expr) => {{
        let op = $op;
        let (a, e) = eff(op, &$touch);
        if let Some(e) = e {
            return e;
        }
        let r: i64 = $body;
        after(&a, op);
        r
    }};
}
#[no_mangle]
unsafe extern "C" fn sim_open(p: *const libc::c_char, flags: i64) -> i64 {
    let p = cs(p);
    let creates = flags as i32 & libc::O_ACCMODE != libc::O_RDONLY;
    // (opening a directory to list it is not interrupted by signals)
    call!(if creates { Op::Create } else if flags & libc::O_DIRECTORY as i64 != 0 { Op::Other } else { Op::Open }, p, {
        if flags as i32 & libc::O_CREAT != 0 && g().fs.capacity == Some(0) && !g().fs.names.contains_key(&norm(&p)) {
            g().hard_fault += 1;
            -libc::ENOSPC as i64
        } else {
            let now = g().now as i64;
            g().fs.open(&p, flags as i32, now)
        }
    })
}
#[no_mangle]
unsafe extern "C" fn sim_read(fd: i64, b: *mut u8, n: usize, at: i64) -> i64 {
    if fd == 0 {
        return 0;
    }
    let (a, e) = eff(Op::Read, "");
    if let Some(e) = e {
        return e;
    }
    let mut k = n.min(g().env.max_io);
    if let Some(Act::Short(m)) = a {
        if (m as usize) < k {
            fired("short:read");
            k = (m as usize).max(1);
        }
    }
    let r = match g().fs.read(fd, k.min(n), at) {
        Ok(v) => {
            std::ptr::copy_nonoverlapping(v.as_ptr(), b, v.len());
            v.len() as i64
        }
        Err(e) => e,
    };
    note(r as u64);
    after(&a, Op::Read);
    r
}
#[no_mangle]
unsafe extern "C" fn sim_write(fd: i64, b: *const u8, n: usize, at: i64) -> i64 {
    let s = std::slice::from_raw_parts(b, n);
    if fd == 1 || fd == 2 {
        let g = g();
        g.console += n as u64;
        if g.console_text.len() < 400 {
            g.console_text.extend_from_slice(&s[..n.min(400)]);
        }
        let (_, e) = eff(Op::Console, "");
        if let Some(e) = e {
            return e;
        }
        return if g.env.console != 0 { -g.env.console as i64 } else { n as i64 };
    }
    let (a, e) = eff(Op::Write, "");
    if let Some(e) = e {
        return e;
    }
    let mut k = n.min(g().env.max_io).max(n.min(1));
    match a {
        Some(Act::Short(m)) if (m as usize) < k => {
            fired("short:write");
            k = (m as usize).max(1);
        }
        Some(Act::KillMid(f)) | Some(Act::PowerMid(f, _)) => k = (n as u64 * f.min(1000) as u64 / 1000) as usize,
        _ => {}
    }
    let now = g().now as i64;
    let r = if k == 0 && n > 0 { 0 } else { g().fs.write(fd, &s[..k], at, now) };
    full(r);
    note(r as u64);
    after(&a, Op::Write);
    r
}
fn full(r: i64) -> i64 {
    if r == -libc::ENOSPC as i64 {
        fired("disk-full:write");
        g().hard_fault += 1;
    }
    r
}
#[no_mangle]
unsafe extern "C" fn sim_close(fd: i64) -> i64 {
    // closing a directory never fails (std panics if it does)
    let dir = g().fs.dir_path(fd).is_ok();
    let (a, e) = if dir { (None, None) } else { eff(Op::Close, "") };
    let r = if fd < FD0 {
        0
    } else {
        match g().fs.close(fd) {
            Ok(l) => {
                if let Some(ino) = l {
                    wake(lock_key(ino), i64::MAX);
                }
                0
            }
            Err(e) => e,
        }
    };
    after(&a, Op::Close);
    e.unwrap_or(r)
}
#[no_mangle]
unsafe extern "C" fn sim_fsync(fd: i64, _data: i64) -> i64 {
    let (a, e) = eff(Op::Fsync, "");
    if let Some(e) = e {
        if e != -libc::EINTR as i64 {
            g().fs.fsync_failed(fd);
        }
        return e;
    }
    let r = g().fs.fsync(fd);
    after(&a, Op::Fsync);
    r
}
#[no_mangle]
unsafe extern "C" fn sim_syncall() -> i64 {
    call!(Op::Sync, "", {
        g().fs.sync_all();
        0
    })
}
#[no_mangle]
unsafe extern "C" fn sim_rename(a: *const libc::c_char, b: *const libc::c_char, f: i64) -> i64 {
    let (x, y) = (cs(a), cs(b));
    call!(Op::Rename, format!("{x} -> {y}"), g().fs.rename(&x, &y, f))
}
#[no_mangle]
unsafe extern "C" fn sim_unlink(p: *const libc::c_char, d: i64) -> i64 {
    let p = cs(p);
    call!(Op::Unlink, p, g().fs.unlink(&p, d != 0))
}
#[no_mangle]
unsafe extern "C" fn sim_lseek(fd: i64, off: i64, wh: i64) -> i64 {
    call!(Op::Seek, "", {
        match g().fs.file(fd) {
            Err(e) => e,
            Ok(f) => {
                let (i, cur) = (f.ino, f.off as i64);
                let len = g().fs.inodes[i].data.len() as i64;
                let n = match wh as i32 {
                    libc::SEEK_SET => off,
                    libc::SEEK_CUR => cur + off,
                    libc::SEEK_END => len + off,
                    _ => -1,
                };
                if n < 0 {
                    -libc::EINVAL as i64
                } else {
                    g().fs.file(fd).unwrap().off = n as usize;
                    n
                }
            }
        }
    })
}
#[no_mangle]
unsafe extern "C" fn sim_ftruncate(fd: i64, len: i64) -> i64 {
    call!(Op::Trunc, "", {
        match g().fs.file(fd) {
            Err(e) => e,
            Ok(f) if !f.wr || len < 0 => -libc::EINVAL as i64,
            Ok(f) => {
                let (i, now) = (f.ino, g().now as i64);
                full(g().fs.set_len(i, len as usize, now))
            }
        }
    })
}
#[no_mangle]
unsafe extern "C" fn sim_truncate(p: *const libc::c_char, len: i64) -> i64 {
    let p = norm(&cs(p));
    call!(Op::Trunc, p, {
        match g().fs.names.get(&p).copied() {
            None => -libc::ENOENT as i64,
            Some(i) => {
                let now = g().now as i64;
                full(g().fs.set_len(i, len.max(0) as usize, now))
            }
        }
    })
}
#[no_mangle]
unsafe extern "C" fn sim_fallocate(fd: i64, off: i64, len: i64) -> i64 {
    call!(Op::Trunc, "", {
        match g().fs.file(fd) {
            Err(e) => e,
            Ok(f) => {
                let (i, now) = (f.ino, g().now as i64);
                if g().fs.inodes[i].data.len() < (off + len) as usize { full(g().fs.set_len(i, (off + len) as usize, now)) } else { 0 }
            }
        }
    })
}
#[no_mangle]
unsafe extern "C" fn sim_link(a: *const libc::c_char, b: *const libc::c_char) -> i64 {
    let (x, y) = (cs(a), cs(b));
    call!(Op::Link, format!("{x} {y}"), g().fs.link(&x, &y))
}
#[no_mangle]
unsafe extern "C" fn sim_mkdir(p: *const libc::c_char) -> i64 {
    let p = cs(p);
    call!(Op::Mkdir, p, g().fs.mkdir(&p))
}
#[no_mangle]
unsafe extern "C" fn sim_access(p: *const libc::c_char) -> i64 {
    let p = norm(&cs(p));
    call!(Op::Stat, p, if g().fs.names.contains_key(&p) { 0 } else { -libc::ENOENT as i64 })
}
#[no_mangle]
unsafe extern "C" fn sim_stat(p: *const libc::c_char, fd: i64, out: *mut i64) -> i64 {
    let name = if p.is_null() { None } else { Some(norm(&cs(p))) };
    call!(Op::Stat, name.clone().unwrap_or_default(), {
        let ino = match &name {
            Some(p) => g().fs.names.get(p).copied().ok_or(-libc::ENOENT as i64),
            None => g().fs.file(fd).map(|f| f.ino),
        };
        match ino {
            Ok(i) => {
                let s = g().fs.stat(i);
                std::ptr::copy_nonoverlapping(s.as_ptr(), out, 4);
                0
            }
            Err(e) => e,
        }
    })
}
#[no_mangle]
unsafe extern "C" fn sim_fcntl(fd: i64, cmd: i64, arg: i64) -> i64 {
    match cmd as i32 {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => g().fs.dup(fd),
        // (the whole file, whatever the range)
        libc::F_OFD_SETLK | libc::F_OFD_SETLKW if arg != 0 => sim_flock(
            fd,
            match (*(arg as *const libc::flock)).l_type as i32 {
                libc::F_UNLCK => libc::LOCK_UN,
                libc::F_RDLCK => libc::LOCK_SH,
                _ => libc::LOCK_EX,
            } as i64
                | if cmd as i32 == libc::F_OFD_SETLK { libc::LOCK_NB as i64 } else { 0 },
        ),
        // locks of the process: it never excludes itself
        libc::F_GETFD | libc::F_SETFD | libc::F_GETFL | libc::F_SETFL | libc::F_SETLK | libc::F_SETLKW => match g().fs.file(fd) {
            Ok(f) if cmd as i32 == libc::F_GETFL => if f.rd && f.wr { 2 } else if f.wr { 1 } else { 0 },
            Ok(_) => 0,
            Err(e) => if fd < 3 { 0 } else { e },
        },
        _ => -libc::EINVAL as i64,
    }
}
fn lock_key(ino: usize) -> usize {
    1 << 60 | ino
}
#[no_mangle]
unsafe extern "C" fn sim_flock(fd: i64, op: i64) -> i64 {
    st().cnt[IO] += 1;
    g().ths[me()].ios.push(Op::Other as u8);
    at_point(IO);
    let nb = op as i32 & libc::LOCK_NB != 0;
    let want = match op as i32 & !libc::LOCK_NB {
        libc::LOCK_UN => 0,
        libc::LOCK_SH => 1,
        libc::LOCK_EX => 2,
        _ => return -libc::EINVAL as i64,
    };
    loop {
        match g().fs.lock(fd, want) {
            Err(e) => return e,
            Ok((ino, true)) => {
                if want < 2 {
                    wake(lock_key(ino), i64::MAX);
                }
                return 0;
            }
            Ok((_, false)) if nb => return -libc::EWOULDBLOCK as i64,
            Ok((ino, false)) => {
                fired("blocked-on-file-lock");
                switch(0, Block::Futex(lock_key(ino), None));
            }
        }
    }
}
#[no_mangle]
unsafe extern "C" fn sim_chdir(p: *const libc::c_char, fd: i64) -> i64 {
    let p = if p.is_null() {
        match g().fs.dir_path(fd) {
            Ok(p) => p,
            Err(e) => return e,
        }
    } else {
        cs(p)
    };
    call!(Op::Stat, p, g().fs.chdir(&p))
}
#[no_mangle]
unsafe extern "C" fn sim_dirpath(fd: i64, b: *mut u8, n: usize) -> i64 {
    match g().fs.dir_path(fd) {
        Ok(p) if p.len() < n => {
            let p = if p == "/" { String::new() } else { p };
            std::ptr::copy_nonoverlapping(p.as_ptr(), b, p.len());
            *b.add(p.len()) = 0;
            0
        }
        Ok(_) => -libc::ENAMETOOLONG as i64,
        Err(e) => e,
    }
}
#[no_mangle]
unsafe extern "C" fn sim_readdir(fd: i64, last: *const libc::c_char, name: *mut u8, n: usize, out: *mut i64) -> i64 {
    let last = cs(last);
    call!(Op::Stat, "", {
        match g().fs.next_entry(fd, &last) {
            Ok(Some((p, i))) if p.len() < n => {
                std::ptr::copy_nonoverlapping(p.as_ptr(), name, p.len());
                *name.add(p.len()) = 0;
                let s = g().fs.stat(i);
                std::ptr::copy_nonoverlapping(s.as_ptr(), out, 4);
                1
            }
            Ok(_) => 0,
            Err(e) => e,
        }
    })
}
#[no_mangle]
unsafe extern "C" fn sim_unsup(w: *const libc::c_char, e: i64) -> i64 {
    let w = cs(w);
    let g = g();
    if !g.unsup.contains(&w) {
        g.unsup.push(w);
    }
    -e
}
#[no_mangle]
unsafe extern "C" fn sim_getcwd(b: *mut u8, n: usize) -> i64 {
    let mut s = cwd().as_bytes().to_vec();
    s.push(0);
    if b.is_null() || n < s.len() {
        return -libc::ERANGE as i64;
    }
    std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
    s.len() as i64
}
#[no_mangle]
unsafe extern "C" fn sim_getrandom(b: *mut u8, n: usize) -> i64 {
    let r = &mut g().rng;
    for i in 0..n {
        *b.add(i) = r.u64() as u8;
    }
    n as i64
}
#[no_mangle]
unsafe extern "C" fn sim_clock() -> i64 {
    advance(50);
    // realtime is 10^18 + sim time, monotonic is sim time
    1_000_000_000_000_000_000i64.saturating_add(g().now as i64 & 0x3fff_ffff_ffff_ffff)
}
#[no_mangle]
unsafe extern "C" fn sim_sleep(ns: i64) -> i64 {
    let d = g().now.saturating_add(ns.max(0) as u64);
    switch(0, Block::Sleep(d));
    g().now = g().now.max(d);
    0
}
#[no_mangle]
unsafe extern "C" fn sim_yield() -> i64 {
    switch(0, Block::No);
    0
}
#[no_mangle]
unsafe extern "C" fn sim_getpid() -> i64 {
    g().env.pid as i64
}
/// what else the library could ask the machine: parent, user, group, host name, processors
#[no_mangle]
unsafe extern "C" fn sim_host(k: i64) -> i64 {
    let e = &g().env;
    let x = mix(e.seed ^ 0x4057 ^ (k as u64) << 32);
    match k {
        1 | 2 => (if x % 3 == 0 { 0 } else { 1000 + x % 1000 }) as i64,
        4 => 1 + (x % 64) as i64,
        _ => 2 + (x % 30000) as i64,
    }
}
/// Every variable is set, to something that depends on its name and the environment. What std itself reads is not.
#[no_mangle]
unsafe extern "C" fn sim_getenv(n: *const libc::c_char) -> *const libc::c_char {
    let e = &g().env;
    let name = std::ffi::CStr::from_ptr(n).to_bytes();
    if e.vars == 0 || name.starts_with(b"RUST_") || [&b"TMPDIR"[..], b"HOME", b"PATH", b"PWD"].contains(&name) {
        return std::ptr::null();
    }
    fired("environment-variable");
    const V: [&[u8]; 16] = [b"1\0", b"0\0", b"true\0", b"\0", b"debug\0", b"trace\0", b"-1\0", b"0.5\0", b"1e-3\0", b"256\0", b"1000000\0", b"yes\0", b"on\0", b"warn\0", b"1e-9\0", b"100\0"];
    V[(mix(crate::rng::hash_str(&String::from_utf8_lossy(name)) ^ e.vars) % 16) as usize].as_ptr() as *const _
}
fn wake(key: usize, most: i64) -> i64 {
    let mut k = 0;
    for th in g().ths.iter_mut() {
        if matches!(th.b, Block::Futex(x, _) if x == key) && k < most {
            th.b = Block::No;
            k += 1;
        }
    }
    k
}
#[no_mangle]
unsafe extern "C" fn sim_futex(a: *const u32, op: i64, v: u32, ns: i64, abs_rt: i64) -> i64 {
    st().cnt[IO] += 1;
    g().ths[me()].ios.push(Op::Other as u8);
    at_point(IO);
    match op as i32 {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if std::ptr::read_volatile(a) != v {
                return -libc::EAGAIN as i64;
            }
            let d = if ns < 0 {
                None
            } else if op as i32 == libc::FUTEX_WAIT {
                Some(g().now + ns as u64)
            } else {
                Some((ns as u64).saturating_sub(if abs_rt != 0 { 1_000_000_000_000_000_000 } else { 0 }))
            };
            g().ths[me()].timed_out = false;
            fired("blocked-on-lock");
            switch(0, Block::Futex(a as usize, d));
            if g().ths[me()].timed_out { -libc::ETIMEDOUT as i64 } else { 0 }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let k = wake(a as usize, v as i64);
            let e = &g().env;
            let x = mix(e.seed ^ 0x4a4d ^ st().cnt[IO] << 8 ^ me() as u64);
            if k > 0 && x % 256 < e.handoff as u64 && switch((x >> 32) as u32, Block::No) {
                fired("lock-handed-over");
            }
            k
        }
        _ => -libc::ENOSYS as i64,
    }
}

// ---------------------------------------------------------------- threads
fn new_thread(harness: bool, plan: &[Point]) -> usize {
    let t = g().ths.len();
    let mut p: [Vec<(u64, Act)>; NC] = Default::default();
    for x in plan.iter().filter(|x| x.t == t) {
        p[x.c].push((x.n, x.a.clone()));
    }
    for v in &mut p {
        v.sort_by_key(|x| x.0);
    }
    let limit = g().env.budget;
    g().ths.push(Th { b: Block::No, timed_out: false, sem: Box::new(AtomicU32::new(0)), plan: p, pos: [0; NC], slice_end: SLICE, limit, ios: vec![], counts: [0; NC], st: std::ptr::null_mut(), harness });
    t
}
fn enter(t: usize) {
    let s = st();
    s.tid = t as i32;
    s.active = 0;
    raw_wait(&g().ths[t].sem);
    g().ths[t].st = s;
    for c in 0..NC {
        recompute(t, c);
    }
}
fn leave(t: usize) {
    let s = st();
    g().ths[t].counts = s.cnt;
    g().ths[t].st = std::ptr::null_mut();
    s.stop = [u64::MAX; NC];
    for th in g().ths.iter_mut() {
        if th.b == Block::Join(t) {
            th.b = Block::No;
        }
    }
    switch(0, Block::Done);
    s.tid = -1;
}
#[no_mangle]
extern "C" fn sim_thread_new() -> i64 {
    fired("library-thread");
    new_thread(false, &[]) as i64
}
#[no_mangle]
extern "C" fn sim_thread_start(t: i64) {
    enter(t as usize)
}
#[no_mangle]
extern "C" fn sim_thread_end(t: i64) {
    leave(t as usize)
}
#[no_mangle]
extern "C" fn sim_thread_join(t: i64) {
    if g().ths[t as usize].b != Block::Done {
        switch(0, Block::Join(t as usize));
    }
}

/// The addresses of locals differ from environment to environment.
#[inline(never)]
fn deeper(n: usize, b: Body) {
    let pad = std::hint::black_box([n as u8; 64]);
    if n == 0 { b() } else { deeper(n - 1, b) }
    std::hint::black_box(pad);
}
/// What the program calls its threads. The fresh process of a baseline (seed 1) has a plain "main".
fn thread_name(seed: u64, t: usize) -> Option<String> {
    if seed == 1 {
        return if t == 0 { Some("main".into()) } else { None };
    }
    match mix(seed ^ 0x6e61_6d65 ^ t as u64) % 4 {
        0 => None,
        1 if t == 0 => Some("main".into()),
        2 => Some(format!("worker-{t}")),
        _ => Some(["render", "net", "w", "tokio-runtime-worker"][t % 4].into()),
    }
}
pub type Body = Box<dyn FnOnce() + Send>;
/// Runs one incarnation: `bodies` are its threads. Does not return.
pub fn incarnation(out: i32, env: Env, plan: &[Point], img: &Image, bodies: Vec<Body>) -> ! {
    let rng = Rng::new(env.seed ^ 0x656e_76);
    let mut fs = Fs::from_image(img);
    fs.capacity = env.capacity;
    let env_seed = env.seed;
    let t0 = 1_000_000_000 + mix(env.seed) % 1_000_000_000_000;
    log::set_max_level(match env.log_level {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    });
    unsafe {
        hk_learn(1);
        std::hint::black_box(log::max_level());
        hk_learn(4);
        std::hint::black_box(log::logger() as *const dyn log::Log);
        hk_learn(0);
        hk_skip(1, &raw const LIVE as *const u8);
        hk_skip(2, &raw const PEAK as *const u8);
    }
    let gg = Box::new(G {
        ths: Vec::with_capacity(256),
        cur: 0,
        main_sem: AtomicU32::new(0),
        now: t0,
        rng,
        fs,
        env,
        sticky: None,
        fired: BTreeMap::new(),
        trace: 0,
        obs: vec![],
        switches: 0,
        out,
        console: 0,
        console_text: vec![],
        unsup: vec![],
        t0,
        text: if unsafe { TRACE_TEXT } { Some(vec![]) } else { None },
        hard_fault: 0,
    });
    arena_init(env_seed);
    LIVE.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    unsafe { GP = Box::into_raw(gg) };
    let n = bodies.len();
    for _ in 0..n {
        new_thread(true, plan);
    }
    for (t, b) in bodies.into_iter().enumerate() {
        let b_ = std::thread::Builder::new();
        match thread_name(env_seed, t) {
            Some(n) => b_.name(n),
            None => b_,
        }
            .stack_size(4 << 20)
            .spawn(move || {
                enter(t);
                deeper((mix(env_seed ^ 0x57ac ^ t as u64) % 64) as usize, b);
                leave(t);
                // stay here: thread-local destructors must not run beside the other threads
                loop {
                    unsafe { hk_raw(libc::SYS_pause, 0, 0, 0, 0, 0, 0) };
                }
            })
            .unwrap();
    }
    hand_to(0);
    raw_wait(&g().main_sem);
    finish(End::Done, None)
}
pub fn finish(end: End, power: Option<u64>) -> ! {
    let s = st();
    s.active = 0;
    let gg = g();
    for th in gg.ths.iter_mut() {
        if !th.st.is_null() {
            th.counts = unsafe { (*th.st).cnt };
        }
    }
    let image = match power {
        Some(p) => gg.fs.power_image(p),
        None => gg.fs.image(),
    };
    let r = Report {
        end,
        obs: std::mem::take(&mut gg.obs),
        counts: gg.ths.iter().map(|t| t.counts).collect(),
        ios: gg.ths.iter().map(|t| t.ios.clone()).collect(),
        trace: gg.trace,
        fired: gg.fired.clone(),
        switches: gg.switches,
        sim_ns: gg.now - gg.t0,
        console: gg.console,
        console_text: String::from_utf8_lossy(&gg.console_text).into_owned(),
        peak: PEAK.load(SeqCst),
        unsup: gg.unsup.clone(),
        image: Image::new(),
        text: gg.text.take().unwrap_or_default(),
    };
    let js = serde_json::to_vec(&r).unwrap();
    let mut b = (js.len() as u32).to_le_bytes().to_vec();
    b.extend_from_slice(&js);
    for (n, d) in &image {
        b.extend_from_slice(&(n.len() as u32).to_le_bytes());
        b.extend_from_slice(n.as_bytes());
        b.extend_from_slice(&(d.len() as u32).to_le_bytes());
        b.extend_from_slice(d);
    }
    let mut o = 0;
    while o < b.len() {
        let k = unsafe { hk_raw(libc::SYS_write, gg.out as i64, b[o..].as_ptr() as i64, (b.len() - o) as i64, 0, 0, 0) };
        if k <= 0 {
            break;
        }
        o += k as usize;
    }
    unsafe { hk_raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0) };
    loop {}
}
pub fn decode(b: &[u8]) -> Option<Report> {
    let u = |o: usize| -> Option<usize> { Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?) as usize) };
    let n = u(0)?;
    let mut r: Report = serde_json::from_slice(b.get(4..4 + n)?).ok()?;
    let mut o = 4 + n;
    while o < b.len() {
        let k = u(o)?;
        let name = String::from_utf8(b.get(o + 4..o + 4 + k)?.to_vec()).ok()?;
        o += 4 + k;
        let k = u(o)?;
        r.image.insert(name, b.get(o + 4..o + 4 + k)?.to_vec());
        o += 4 + k;
    }
    Some(r)
}

// ---------------------------------------------------------------- locks of the harness (what a user would put around a map)
#[derive(Default)]
pub struct HRw {
    readers: u32,
    writer: bool,
}
impl HRw {
    fn wait(&self) {
        fired("blocked-on-user-lock");
        switch(0, Block::Futex(self as *const _ as usize, None));
    }
    fn wake(&self) {
        for th in g().ths.iter_mut() {
            if matches!(th.b, Block::Futex(x, _) if x == self as *const _ as usize) {
                th.b = Block::No;
            }
        }
    }
    /// The lock's own state is only touched by the thread that has the token, with `active` off.
    pub fn lock(&mut self, write: bool) {
        point(IO);
        while self.writer || write && self.readers > 0 {
            self.wait();
        }
        if write {
            self.writer = true;
        } else {
            self.readers += 1;
        }
    }
    pub fn unlock(&mut self) {
        if self.writer {
            self.writer = false;
        } else {
            self.readers -= 1;
        }
        self.wake();
    }
}
#[derive(Default)]
pub struct HBarrier {
    waiting: usize,
    round: u64,
}
impl HBarrier {
    pub fn wait(&mut self, n: usize) {
        self.waiting += 1;
        if self.waiting >= n {
            self.waiting = 0;
            self.round += 1;
            for th in g().ths.iter_mut() {
                if matches!(th.b, Block::Futex(x, _) if x == self as *const _ as usize) {
                    th.b = Block::No;
                }
            }
        } else {
            let r = self.round;
            while self.round == r {
                switch(0, Block::Futex(self as *const _ as usize, None));
            }
        }
    }
}
/// start of a memory measurement: the peak is counted from here
pub fn mem_mark() -> i64 {
    let l = LIVE.load(SeqCst);
    PEAK.store(l, SeqCst);
    l
}
pub fn mem_peak() -> i64 {
    PEAK.load(SeqCst)
}

// ---------------------------------------------------------------- crossing between harness and library
/// Run library code; `Err` is a caught panic.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    lib_raw(f).map_err(|p| describe(&*p))
}
pub fn lib_raw<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    let s = st();
    let old = s.active;
    s.active = 1;
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    st().active = old;
    r
}
/// Harness code called back by the library.
pub struct Host(i32);
impl Host {
    pub fn enter() -> Host {
        let s = st();
        let h = Host(s.active);
        s.active = 0;
        h
    }
}
impl Drop for Host {
    fn drop(&mut self) {
        st().active = self.0;
    }
}
#[derive(Debug)]
pub struct SimPanic(pub u64);
pub fn describe(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {s}")
    } else if let Some(s) = p.downcast_ref::<SimPanic>() {
        format!("simulated panic {}", s.0)
    } else {
        "panic: ?".into()
    }
}

// ---------------------------------------------------------------- allocator
pub struct SimAlloc;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
#[inline]
fn on_alloc(n: usize) {
    let s = st();
    if s.active != 0 {
        s.active = 0;
        let l = LIVE.fetch_add(n as i64, SeqCst) + n as i64;
        if l > PEAK.load(SeqCst) {
            PEAK.store(l, SeqCst);
        }
        if l > g().env.mem_limit {
            finish(End::MemLimit, None)
        }
        s.cnt[ALLOC] += 1;
        at_point(ALLOC);
        s.active = 1;
    }
}
#[inline]
fn on_free(n: usize) {
    if st().active != 0 {
        LIVE.fetch_sub(n as i64, SeqCst);
    }
}
/// Library allocations live in an arena of their own at a fixed address, so that addresses (and what depends on them)
/// are a function of the run alone; its layout and the content of fresh memory vary with the environment's seed.
/// Only the thread that holds the token touches it.
const ARENA: usize = 0x1000_0000_0000;
const ARENA_LEN: usize = 64 << 30;
static mut A_NEXT: usize = 0;
static mut A_FREE: [*mut u8; 48] = [std::ptr::null_mut(); 48];
static mut A_FILL: u8 = 0;
static mut A_SKEW: u64 = 0;
fn arena_init(seed: u64) {
    unsafe {
        let p = libc::mmap(ARENA as *mut _, ARENA_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != ARENA {
            libc::_exit(98);
        }
        A_FILL = (mix(seed ^ 0xa11) >> 8) as u8;
        A_SKEW = mix(seed ^ 0xa12) | 1;
        A_NEXT = ARENA + (A_SKEW as usize & 0xff0);
    }
}
fn in_arena(p: *mut u8) -> bool {
    (ARENA..ARENA + ARENA_LEN).contains(&(p as usize))
}
fn class(l: &Layout) -> usize {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize
}
unsafe fn arena_alloc(l: &Layout) -> *mut u8 {
    let k = class(l);
    let p = A_FREE[k];
    let p = if !p.is_null() {
        A_FREE[k] = *(p as *mut *mut u8);
        p
    } else {
        // now and then a gap
        A_SKEW ^= A_SKEW << 13;
        A_SKEW ^= A_SKEW >> 7;
        A_SKEW ^= A_SKEW << 17;
        if A_SKEW & 7 == 0 {
            A_NEXT += (A_SKEW >> 8) as usize & 0x70;
        }
        let al = l.align().max(16);
        let p = (A_NEXT + al - 1) & !(al - 1);
        if p + (1 << k) > ARENA + ARENA_LEN {
            return std::ptr::null_mut();
        }
        A_NEXT = p + (1 << k);
        p as *mut u8
    };
    std::ptr::write_bytes(p, A_FILL, l.size().min(2048));
    p
}
unsafe fn arena_free(p: *mut u8, l: &Layout) {
    let k = class(l);
    *(p as *mut *mut u8) = A_FREE[k];
    A_FREE[k] = p;
}
unsafe impl GlobalAlloc for SimAlloc {
    // No memory point may fall inside the allocator: a switch there would give two threads the same block.
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        let h = Host::enter();
        if h.0 != 0 { arena_alloc(&l) } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        let h = Host::enter();
        if h.0 != 0 {
            let p = arena_alloc(&l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        let _h = Host::enter();
        if in_arena(p) { arena_free(p, &l) } else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n);
        on_free(l.size());
        let h = Host::enter();
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if in_arena(p) {
            if class(&l) == class(&nl) {
                return p;
            }
            let q = if h.0 != 0 { arena_alloc(&nl) } else { System.alloc(nl) };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                arena_free(p, &l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

// ---------------------------------------------------------------- logger
pub struct SimLog;
/// what the logger does besides counting: set per run by the scenario
pub static mut LOG_HOOK: Option<fn(Option<Act>)> = None;
impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !in_sim() {
            return;
        }
        if g().env.fmt {
            // formatting runs Display code of the caller's values
            let s = format!("{}", r.args());
            let _h = Host::enter();
            note(crate::rng::hash_str(&s));
        }
        let _h = Host::enter();
        let a = point(LOG);
        match unsafe { LOG_HOOK } {
            Some(f) => f(a),
            None if a == Some(Act::Panic) => {
                fired("panic:logger");
                std::panic::panic_any(SimPanic(st().cnt[LOG]))
            }
            None => {}
        }
    }
    fn flush(&self) {}
}
