//! Driver side of the simulation runtime: one fork-server process per (worker, binary).
use std::collections::BTreeMap;
use std::fs::{File, OpenOptions};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const IN_CAP: usize = 16 << 20;
pub const OUT_CAP: usize = 48 << 20;
const MAXSTREAM: usize = 512;
const SWITCH_CAP: usize = 1 << 18;
const HDR: usize = 16 * 8 + 64 * 8 + MAXSTREAM * 120 + MAXSTREAM * 8 + 4096;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn poll(f: *mut PollFd, n: u64, t: i32) -> i32;
}
#[repr(C)]
struct PollFd { fd: i32, events: i16, revents: i16 }

macro_rules! params { ($($n:ident = $v:expr),* $(,)?) => { $(#[allow(dead_code)] pub const $n: u64 = $v;)* pub const PARAM_NAMES: &[(&str, u64)] = &[$((stringify!($n), $v)),*]; } }
params! {
    SCHED_SEED = 1, IO_SEED = 2, CLOCK_SEED = 3, HASH_SEED = 4, LAYOUT_SEED = 5, MODE = 6,
    GAP_ACOLD = 7, GAP_AHOT = 8, GAP_RCOLD = 9, GAP_RHOT = 10, GAP_SYS = 11, PCT_DEPTH = 12, PCT_RANGE = 13,
    STALL_TID = 14, STALL_FROM = 15, STALL_TO = 16, SPURIOUS = 17, CLOCK_MODE = 18, MAX_EVENTS = 19,
    READ_CHUNK = 20, READ_EINTR = 21, WRITE_CHUNK = 22, WRITE_EINTR = 23, ALLOC_FAIL_AT = 24, ALLOC_FAIL_MIN = 25,
    THREAD_FAIL_AT = 26, PIPE_CAP = 27, DIR_SHUFFLE = 28, LAYOUT_MODE = 29, NCPU = 30, RECORD = 31, CPU_SECONDS = 32,
    HASH_FAIL = 33, TRACE_TEXT = 34, EINTR_WAIT = 35, KILL_AT = 36,
}
pub const F_READ_ERR: u64 = 1; pub const F_READ_EOF: u64 = 2; pub const F_OPEN_ERR: u64 = 3; pub const F_WRITE_ERR: u64 = 4;
pub const F_SPAWN_ERR: u64 = 5; pub const F_PIPE_ERR: u64 = 6; pub const F_CREATE_ERR: u64 = 7; pub const F_READ_FLIP: u64 = 8;
pub const F_STAT_ERR: u64 = 9; pub const F_WAIT_ERR: u64 = 10; pub const F_READDIR_ERR: u64 = 11; pub const F_PIPEREAD_ERR: u64 = 12;
pub const FAULT_NAMES: &[&str] = &["", "READ_ERR", "READ_EOF", "OPEN_ERR", "WRITE_ERR", "SPAWN_ERR", "PIPE_ERR", "CREATE_ERR", "READ_FLIP", "STAT_ERR", "WAIT_ERR", "READDIR_ERR", "PIPEREAD_ERR", "CLOCK_JUMP"];
pub const CNAMES: &[&str] = &["reads", "short_read", "read_eintr", "read_err", "read_eof", "read_flip", "opens", "open_err",
    "writes", "short_write", "write_eintr", "write_err", "creates", "create_err", "spawns", "spawn_err",
    "pipe_err", "threads", "thread_fail", "allocs", "alloc_fail", "futex_wait", "futex_wake", "spurious_wakeup",
    "clock_reads", "clock_jumps", "random_reads", "preempt", "block_switch", "stalled_picks", "atomics",
    "hot_atomics", "solver_ops", "solver_exit", "solver_kill", "solver_hang", "epipe", "pipe_full", "zombies", "waits",
    "yields", "sleeps", "timeouts", "stat_err", "readdir_err", "max_live_threads", "hash_fail", "wait_eintr", "events_at_mt",
    "piperead_err", "unexpected", "max_open_fds", "max_live_solvers", "min_stack", "peak_heap"];
pub fn cidx(n: &str) -> usize { CNAMES.iter().position(|x| *x == n).unwrap_or_else(|| panic!("counter {n}")) }

/// Solver script operations.
#[derive(Clone, Debug, PartialEq)]
pub struct Op { pub op: u32, pub a: u32, pub b: u64, pub c: u64 }
impl Op {
    pub fn read(b: u64) -> Op { Op { op: 1, a: 0, b, c: 0 } }
    pub fn write_match() -> Op { Op { op: 2, a: 0, b: u64::MAX, c: 0 } }
    pub fn write_limit(n: u64) -> Op { Op { op: 2, a: 0, b: u64::MAX, c: n } }
    pub fn close(fd: u32) -> Op { Op { op: 3, a: fd, b: 0, c: 0 } }
    pub fn exit(c: u64) -> Op { Op { op: 4, a: 0, b: c, c: 0 } }
    pub fn die(sig: u64) -> Op { Op { op: 5, a: 0, b: sig, c: 0 } }
    pub fn sleep(ns: u64) -> Op { Op { op: 6, a: 0, b: ns, c: 0 } }
    pub fn hang() -> Op { Op { op: 7, a: 0, b: 0, c: 0 } }
    pub fn junk(fd: u32, n: u64, byte: u64) -> Op { Op { op: 8, a: fd, b: n, c: byte } }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct World {
    pub argv: Vec<String>,
    pub files: Vec<(String, Vec<u8>)>,
    pub stdin: Vec<u8>,
    pub params: BTreeMap<u64, u64>,
    pub faults: Vec<[u64; 6]>,
    pub solvers: Vec<Vec<Op>>,
    pub blobs: Vec<(String, Vec<u8>)>,
    pub switches: Option<Vec<(u64, u64)>>,
}
impl World {
    pub fn p(&mut self, k: u64, v: u64) -> &mut Self { self.params.insert(k, v); self }
    pub fn file(&mut self, n: &str, c: &[u8]) -> &mut Self { self.files.push((n.into(), c.to_vec())); self }
    pub fn fault(&mut self, kind: u64, a: u64, b: u64, c: u64) -> &mut Self { self.faults.push([kind, a, b, c, 0, 0]); self }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        fn rec(o: &mut Vec<u8>, tag: u32, p: &[u8]) { o.extend(tag.to_le_bytes()); o.extend((p.len() as u32).to_le_bytes()); o.extend(p); while o.len() % 8 != 0 { o.push(0); } }
        let mut a = Vec::new(); for s in &self.argv { a.extend(s.as_bytes()); a.push(0); } rec(&mut o, 1, &a);
        for (n, c) in &self.files { let mut b = (n.len() as u32).to_le_bytes().to_vec(); b.extend(n.as_bytes()); b.extend(c); rec(&mut o, 2, &b); }
        if !self.stdin.is_empty() { rec(&mut o, 8, &self.stdin); }
        let mut ps = self.params.clone(); if self.switches.is_some() { ps.insert(MODE, 3); }
        let mut b = Vec::new(); for (k, v) in &ps { b.extend(k.to_le_bytes()); b.extend(v.to_le_bytes()); } rec(&mut o, 3, &b);
        if let Some(s) = &self.switches { let mut b = Vec::new(); for (e, t) in s { b.extend(e.to_le_bytes()); b.extend(t.to_le_bytes()); } rec(&mut o, 4, &b); }
        if !self.faults.is_empty() { let mut b = Vec::new(); for f in &self.faults { for x in f { b.extend(x.to_le_bytes()); } } rec(&mut o, 7, &b); }
        for s in &self.solvers { let mut b = (s.len() as u32).to_le_bytes().to_vec(); b.extend([0; 4]); for p in s { b.extend(p.op.to_le_bytes()); b.extend(p.a.to_le_bytes()); b.extend(p.b.to_le_bytes()); b.extend(p.c.to_le_bytes()); } rec(&mut o, 5, &b); }
        for (k, c) in &self.blobs { let mut b = (k.len() as u32).to_le_bytes().to_vec(); b.extend(k.as_bytes()); b.extend(c); rec(&mut o, 6, &b); }
        rec(&mut o, 0, &[]);
        o
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End { Exit(i32), Signal(i32), Deadlock, EventLimit, Killed, Internal }
#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End, pub msg: String, pub events: u64, pub switches: u64, pub sched_hash: u64, pub simtime: u64,
    pub switch_list: Vec<(u64, u64)>, pub overflow: bool, pub streams: Vec<(String, Vec<u8>)>, pub c: [u64; 64],
}
impl Outcome {
    pub fn stream(&self, n: &str) -> Option<&[u8]> { self.streams.iter().find(|s| s.0 == n).map(|s| &s.1[..]) }
    pub fn stdout(&self) -> String { String::from_utf8_lossy(self.stream("stdout").unwrap_or(b"")).into_owned() }
    pub fn stderr(&self) -> String { String::from_utf8_lossy(self.stream("stderr").unwrap_or(b"")).into_owned() }
    pub fn cnt(&self, n: &str) -> u64 { self.c[cidx(n)] }
    /// Everything observable, for equality between two executions.
    pub fn digest(&self) -> u64 {
        let mut v = format!("{:?}|{}|{}|{}|{:x}|{}|", self.end, self.msg, self.events, self.switches, self.sched_hash, self.simtime).into_bytes();
        for (n, b) in &self.streams { v.extend(n.as_bytes()); v.push(0); v.extend(b); v.push(0); }
        for x in self.c { v.extend(x.to_le_bytes()); }
        for (a, b) in &self.switch_list { v.extend(a.to_le_bytes()); v.extend(b.to_le_bytes()); }
        crate::rng::fnv(&v)
    }
    pub fn panicked(&self) -> bool { self.stderr().contains("panicked at") }
}

pub struct Server { child: Child, tx: ChildStdin, rx: ChildStdout, map: *mut u8 }
unsafe impl Send for Server {}
impl Server {
    pub fn start(bin: &str, cpu: usize, scratch: &str, tag: &str) -> Result<Server, String> {
        let path = format!("{}/shm-{}-{}", scratch, std::process::id(), tag);
        let f: File = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).map_err(|e| format!("{path}: {e}"))?;
        f.set_len((IN_CAP + OUT_CAP) as u64).map_err(|e| e.to_string())?;
        let map = unsafe { mmap(std::ptr::null_mut(), IN_CAP + OUT_CAP, 3, 1, f.as_raw_fd(), 0) };
        if map as isize == -1 { return Err("mmap".into()); }
        let mut child = Command::new(bin).env_clear().env("SIM_SHM", &path).env("SIM_CPU", cpu.to_string()).env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0")
            .current_dir("/").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("spawn {bin}: {e}"))?;
        let (tx, rx) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        let mut s = Server { child, tx, rx, map };
        // handshake run is implicit: the file may be unlinked once the server has mapped it, i.e. after the first reply
        let mut w = World { argv: vec!["carcara".into(), "--version".into()], ..Default::default() }; w.p(MODE, 0);
        let o = s.run(&w)?;
        let _ = std::fs::remove_file(&path);
        if o.end != End::Exit(0) { return Err(format!("handshake: {:?} {} {}", o.end, o.msg, o.stderr())); }
        Ok(s)
    }
    pub fn run(&mut self, w: &World) -> Result<Outcome, String> {
        let e = w.encode();
        if e.len() + 16 > IN_CAP { return Err("config too large".into()); }
        unsafe { std::ptr::copy_nonoverlapping(e.as_ptr(), self.map.add(8), e.len()); *(self.map.add(IN_CAP) as *mut u64) = 0; }
        self.tx.write_all(&[1]).and_then(|_| self.tx.flush()).map_err(|e| format!("server write: {e}"))?;
        let mut pf = PollFd { fd: self.rx.as_raw_fd(), events: 1, revents: 0 };
        let mut left = 90_000;
        loop { let r = unsafe { poll(&mut pf, 1, 1000) }; if r > 0 { break; } left -= 1000; if left <= 0 { let _ = self.child.kill(); return Err("no reply from the simulated process (wall-clock watchdog)".into()); } }
        let mut b = [0u8; 8];
        self.rx.read_exact(&mut b).map_err(|e| format!("server read: {e}"))?;
        let st = u64::from_le_bytes(b) as i32;
        let out = unsafe { std::slice::from_raw_parts(self.map.add(IN_CAP), OUT_CAP) };
        let g = |i: usize| u64::from_le_bytes(out[i * 8..i * 8 + 8].try_into().unwrap());
        if g(0) != 0x53494d32 { return Err(format!("run did not start (status {st:x})")); }
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        let cs = 16 * 8 + 64 * 8; let sl = cs + MAXSTREAM * 120; let ms = sl + MAXSTREAM * 8;
        let cstr = |b: &[u8]| { let n = b.iter().position(|x| *x == 0).unwrap_or(b.len()); String::from_utf8_lossy(&b[..n]).into_owned() };
        let msg = cstr(&out[ms..ms + 4096]);
        let end = match g(1) { 2 => End::Deadlock, 3 => End::EventLimit, 4 => End::Internal, 6 => End::Killed, _ => if sig != 0 { End::Signal(sig) } else if code == 78 || code == 79 { End::Internal } else { End::Exit(code) } };
        let mut c = [0u64; 64]; for (i, x) in c.iter_mut().enumerate() { *x = g(16 + i); }
        let ns = g(9) as usize; let mut streams: Vec<(String, Vec<u8>)> = (0..ns.min(MAXSTREAM)).map(|i| (cstr(&out[cs + i * 120..cs + i * 120 + 120]), Vec::new())).collect();
        let off = (HDR + 4095) & !4095; let nsw = (g(8) as usize).min(SWITCH_CAP);
        let u = |o: usize| u64::from_le_bytes(out[o..o + 8].try_into().unwrap());
        let switch_list = (0..nsw).map(|i| (u(off + 16 * i), u(off + 16 * i + 8))).collect();
        let d0 = off + SWITCH_CAP * 16; let dl = g(10) as usize; let mut p = d0;
        while p < d0 + dl {
            let s = u32::from_le_bytes(out[p..p + 4].try_into().unwrap()) as usize; let l = u32::from_le_bytes(out[p + 4..p + 8].try_into().unwrap()); let o = u64::from_le_bytes(out[p + 8..p + 16].try_into().unwrap());
            let Some(x) = streams.get_mut(s) else { return Err("bad stream record".into()) };
            if l == u32::MAX { x.1.truncate(o as usize); p += 16; continue; }
            let (l, d) = (l as usize, &out[p + 16..p + 16 + l as usize]);
            if o == u64::MAX { x.1.extend(d); } else { let o = o as usize; if x.1.len() < o + l { x.1.resize(o + l, 0); } x.1[o..o + l].copy_from_slice(d); }
            p += 16 + l;
        }
        if end == End::Internal { return Err(format!("simulator: {msg} (code {code})")); }
        Ok(Outcome { end, msg, events: g(4), switches: g(5), sched_hash: g(6), simtime: g(7), switch_list, overflow: g(11) != 0, streams, c })
    }
}
impl Drop for Server { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); unsafe { munmap(self.map, IN_CAP + OUT_CAP); } } }
