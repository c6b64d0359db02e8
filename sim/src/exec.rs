//! The simulator proper: runs real mofmt processes one system call at a time
//! against the simulated disk, decides which process moves next, and injects
//! faults.  Everything that happens follows from the scenario.

use crate::launch::{Handle, Next, Req, Server, Status};
use crate::prng::{hash_bytes, mix, Rng};
use crate::vfs::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

// ---------------------------------------------------------------- classes

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Cls {
    OpenR,
    OpenW,
    Read,
    Write,
    Out,
    ErrOut,
    Stat,
    OpenDir,
    ReadDir,
    Fsync,
    Rename,
    Unlink,
    Mkdir,
    Link,
    Chmod,
    Chown,
    Trunc,
    Path,
    Seek,
    Flock,
    Thread,
    Other,
}
pub const ALL_CLS: [Cls; 22] = [
    Cls::OpenR,
    Cls::OpenW,
    Cls::Read,
    Cls::Write,
    Cls::Out,
    Cls::ErrOut,
    Cls::Stat,
    Cls::OpenDir,
    Cls::ReadDir,
    Cls::Fsync,
    Cls::Rename,
    Cls::Unlink,
    Cls::Mkdir,
    Cls::Link,
    Cls::Chmod,
    Cls::Chown,
    Cls::Trunc,
    Cls::Path,
    Cls::Seek,
    Cls::Flock,
    Cls::Thread,
    Cls::Other,
];
impl Cls {
    pub fn name(self) -> &'static str {
        match self {
            Cls::OpenR => "open-read",
            Cls::OpenW => "open-write",
            Cls::Read => "read",
            Cls::Write => "write",
            Cls::Out => "stdout",
            Cls::ErrOut => "stderr",
            Cls::Stat => "stat",
            Cls::OpenDir => "open-dir",
            Cls::ReadDir => "read-dir",
            Cls::Fsync => "fsync",
            Cls::Rename => "rename",
            Cls::Unlink => "unlink",
            Cls::Mkdir => "mkdir",
            Cls::Link => "link",
            Cls::Chmod => "chmod",
            Cls::Chown => "chown",
            Cls::Trunc => "truncate",
            Cls::Path => "path",
            Cls::Seek => "seek",
            Cls::Flock => "flock",
            Cls::Thread => "thread",
            Cls::Other => "other",
        }
    }
    pub fn parse(s: &str) -> Option<Cls> {
        ALL_CLS.iter().copied().find(|c| c.name() == s)
    }
    pub fn bit(self) -> u32 {
        1 << (self as u8)
    }
}

// ---------------------------------------------------------------- faults

#[derive(Clone, Debug, PartialEq)]
pub enum Ext {
    Remove(Vec<u8>),
    Chmod(Vec<u8>, u32),
    Create(Vec<u8>, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Err(i32),
    /// an errno fitting the operation it happens to hit
    AnyErr(u32),
    /// transfer only this many permille of the request (at least one byte)
    Short(u32),
    /// SIGKILL before / after the operation takes effect
    Kill,
    KillAfter,
    /// part of a write reaches the page cache, then SIGKILL
    Torn(u32),
    /// power loss before / after the operation; the seed picks what survives
    Power(u64),
    PowerAfter(u64),
    /// this process gets no turn for n scheduling decisions (and n ms)
    Stall(u32),
    Ext(Ext),
}

#[derive(Clone, Debug, PartialEq)]
pub enum At {
    /// the nth (from 0) operation of these classes on a path with this suffix
    Nth { mask: u32, suffix: Vec<u8>, nth: u32 },
    /// this far (permille) through the operations a fault-free run performs
    Frac { mask: u32, permille: u32 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub at: At,
    pub kind: Kind,
    pub times: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ProcSpec {
    pub args: Vec<Vec<u8>>,
    pub cwd: Vec<u8>,
    pub alloc_fail: i64,
    pub faults: Vec<Fault>,
}

// ---------------------------------------------------------------- results

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    /// died of a signal the simulator did not send
    Signal(i32),
    Killed,
    PowerLost,
    /// computed for too long without a system call
    Hung,
    /// more operations than any sane run needs
    Budget,
}

#[derive(Clone, Debug)]
pub struct Fired {
    pub cls: Cls,
    pub path: Vec<u8>,
    pub kind: Kind,
    pub errno: i32,
    pub op: u32,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub cls: Cls,
    pub op: u32,
    pub path: Vec<u8>,
    pub ret: i64,
    pub err: i32,
    pub mutated: bool,
}

#[derive(Clone, Debug)]
pub struct ProcRec {
    pub args: Vec<Vec<u8>>,
    pub cwd: Vec<u8>,
    pub end: End,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: Vec<OpRec>,
    pub fired: Vec<Fired>,
    pub alloc_fail: i64,
    /// simulated paths read to the end, with the contents seen
    pub complete_reads: BTreeMap<Vec<u8>, Vec<Vec<u8>>>,
    pub escapes: Vec<String>,
}
impl ProcRec {
    pub fn stopped(&self) -> bool {
        !matches!(self.end, End::Exit(_))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub data: Option<Bytes>,
    pub at_op: u64,
    pub how: &'static str,
}

pub struct StepRec {
    pub procs: Vec<ProcRec>,
    /// distinct contents each watched path showed, live or after a sampled power loss
    pub seen: BTreeMap<Vec<u8>, Vec<Seen>>,
    pub power_lost: bool,
    pub switches: u32,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub runs: u64,
    pub ops: u64,
    pub sim_ns: u128,
    pub faults: BTreeMap<String, u64>,
    pub crash_samples: u64,
    pub switches: u64,
    pub thread_switches: u64,
    pub power_losses: u64,
    pub kills: u64,
    pub states: BTreeSet<u64>,
    pub traces: BTreeSet<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Knobs {
    pub fsync_journal: bool,
    /// 0 sorted, 1 reversed, 2.. shuffled
    pub dir_order: u64,
    pub dtype_unknown: bool,
    /// longest simulated latency of one operation, ns
    pub latency: u64,
    pub pid_base: i64,
    pub pid_reuse: bool,
    /// how far the process ids of two runs lie apart; 0: each runs in a
    /// container of its own and has the same
    pub pid_step: i64,
    pub clock: i64,
    /// largest transfer of one read/write (0: no limit)
    pub max_io: u32,
    /// how many descriptors a process may have open
    pub max_fds: i64,
    /// 0: no environment variable is set; otherwise the values of those asked for
    pub env: u64,
    /// /tmp is a file system of its own
    pub tmpfs: bool,
    pub umask: u32,
    pub superuser: bool,
    /// the program is compiled without overflow checks
    pub plain: bool,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            fsync_journal: false,
            dir_order: 0,
            dtype_unknown: false,
            latency: 1000,
            pid_base: 100,
            pid_reuse: false,
            pid_step: 1,
            clock: 1_700_000_000_000_000_000,
            max_io: 0,
            max_fds: 400,
            env: 0,
            tmpfs: false,
            umask: 0o022,
            superuser: false,
            plain: false,
        }
    }
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.ops += o.ops;
        self.sim_ns += o.sim_ns;
        self.crash_samples += o.crash_samples;
        self.switches += o.switches;
        self.thread_switches += o.thread_switches;
        self.power_losses += o.power_losses;
        self.kills += o.kills;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        self.states.extend(o.states.iter());
        self.traces.extend(o.traces.iter());
    }
}

pub struct World {
    pub vfs: Vfs,
    pub knobs: Knobs,
    pub rng: Rng,
    pub clock: i64,
    pub runs_started: u64,
    pub trace: u64,
    pub sample_crashes: bool,
}

#[derive(Clone)]
enum Target {
    File(Ino),
    Dir(Ino),
    Out(u8),
    Null,
}
#[derive(Clone)]
struct Ofd {
    t: Target,
    pos: usize,
    flags: i64,
    path: Vec<u8>,
    listing: Option<Vec<(Vec<u8>, Ino)>>,
    idx: usize,
    read_from_start: bool,
    acc: Vec<u8>,
}

struct Proc {
    h: Handle,
    rec: ProcRec,
    fds: BTreeMap<i64, usize>,
    ofds: Vec<Ofd>,
    cwd: Ino,
    pending: Option<Req>,
    live: bool,
    stall: u32,
    matched: Vec<u32>,
    used: Vec<u32>,
    at: Vec<Option<u32>>,
    count: u32,
    counts: [u32; ALL_CLS.len()],
    calls: usize,
    scheds: usize,
    thread_policy: usize,
    thread_ranks: Vec<u64>,
    budget: usize,
    pid: i64,
}

const AT_FDCWD: i64 = -100;
const O_ACCMODE: i64 = 3;
const O_CREAT: i64 = 0o100;
const O_EXCL: i64 = 0o200;
const O_TRUNC: i64 = 0o1000;
const O_APPEND: i64 = 0o2000;
const O_DIRECTORY: i64 = 0o200000;
const O_NOFOLLOW: i64 = 0o400000;
const O_PATH: i64 = 0o10000000;
const O_TMPFILE: i64 = 0o20000000;
const AT_NOFOLLOW: i64 = 0x100;
const AT_EMPTY_PATH: i64 = 0x1000;

/// operations of a run other than transfers, which depend on how much they move;
/// more for every argument and file
const OP_BUDGET: usize = 40_000;
/// all operations of a run
const ALL_BUDGET: usize = 1_000_000;
const CPU_SECONDS: u32 = 10;
const GUARD_MS: i32 = 60_000;

enum Verdict {
    /// ret, errno, data
    Reply(i64, i32, Vec<u8>),
    Die,
    Power(u64),
}

struct Step<'a> {
    w: &'a mut World,
    stats: &'a mut Stats,
    watch: &'a [Vec<u8>],
    seen: BTreeMap<Vec<u8>, Vec<Seen>>,
    /// what the watched paths hold
    live: Vec<Option<Bytes>>,
    nop: u64,
    /// None while a dry run measures how many operations there are
    power: Option<u64>,
    quiet: bool,
}

pub fn op_cls(p_ofds: impl Fn(i64) -> Option<(u8, Vec<u8>)>, r: &Req) -> (Cls, Vec<u8>) {
    // p_ofds gives (0 file, 1 dir, 2 stdout, 3 stderr, 4 null) and the path of a descriptor
    let fdp = |fd: i64| p_ofds(fd).map(|x| x.1).unwrap_or_default();
    match r.op {
        1 => {
            let fl = r.a[1];
            let c = if fl & O_DIRECTORY != 0 {
                Cls::OpenDir
            } else if fl & O_ACCMODE != 0 || fl & O_CREAT != 0 {
                Cls::OpenW
            } else {
                Cls::OpenR
            };
            (c, r.p1.clone())
        }
        2 => (Cls::Other, fdp(r.a[0])),
        3 => (Cls::Read, fdp(r.a[0])),
        4 => match p_ofds(r.a[0]) {
            Some((2, _)) => (Cls::Out, b"<stdout>".to_vec()),
            Some((3, _)) => (Cls::ErrOut, b"<stderr>".to_vec()),
            Some((_, p)) => (Cls::Write, p),
            None => (Cls::Write, vec![]),
        },
        5 => (Cls::Seek, fdp(r.a[0])),
        6 => (Cls::Stat, if r.p1.is_empty() { fdp(r.a[0]) } else { r.p1.clone() }),
        7 => (Cls::Trunc, fdp(r.a[0])),
        8 => (Cls::Trunc, r.p1.clone()),
        9 => (Cls::Fsync, fdp(r.a[0])),
        10 => (Cls::ReadDir, fdp(r.a[0])),
        11 => (Cls::Mkdir, r.p1.clone()),
        12 | 13 => (Cls::Unlink, r.p1.clone()),
        14 => (Cls::Rename, r.p2.clone()),
        15 | 16 => (Cls::Link, r.p2.clone()),
        17 | 18 | 24 => (Cls::Path, r.p1.clone()),
        19 => (Cls::Chmod, r.p1.clone()),
        20 => (Cls::Chmod, fdp(r.a[0])),
        21 => (Cls::Chown, r.p1.clone()),
        22 => (Cls::Chown, fdp(r.a[0])),
        23 => (Cls::Other, r.p1.clone()),
        25 => (Cls::Path, b"<cwd>".to_vec()),
        29 => (Cls::Flock, fdp(r.a[0])),
        36 => (Cls::Thread, b"<thread>".to_vec()),
        _ => (Cls::Other, vec![]),
    }
}

/// A plausible errno for an operation.
pub fn plausible(c: Cls, pick: u32) -> i32 {
    let l: &[i32] = match c {
        Cls::OpenR => &[EACCES, EIO, EMFILE, ENFILE, ESTALE, ENOMEM],
        Cls::OpenW => &[EACCES, EIO, EMFILE, ENOSPC, EROFS, EDQUOT],
        Cls::Read => &[EIO, ESTALE, ENOMEM],
        Cls::Write => &[ENOSPC, EIO, EDQUOT, EFBIG],
        Cls::Out | Cls::ErrOut => &[EPIPE, ENOSPC, EIO],
        Cls::Stat => &[EIO, EACCES, ESTALE],
        Cls::OpenDir => &[EACCES, EIO, EMFILE],
        Cls::ReadDir => &[EIO, ESTALE],
        Cls::Fsync => &[EIO, ENOSPC, EDQUOT],
        Cls::Rename => &[EIO, ENOSPC, EBUSY, EACCES, EROFS],
        Cls::Unlink => &[EIO, EACCES, EBUSY],
        Cls::Chmod | Cls::Chown => &[1, EIO, EROFS],
        Cls::Trunc => &[EIO, EFBIG],
        Cls::Path => &[EIO, EACCES],
        Cls::Flock => &[EAGAIN, 37],
        Cls::Thread => &[EAGAIN],
        _ => &[EIO],
    };
    l[pick as usize % l.len()]
}

impl World {
    pub fn new(vfs: Vfs, knobs: Knobs, seed: u64) -> World {
        let mut w = World {
            vfs,
            clock: knobs.clock,
            knobs,
            rng: Rng::new(seed),
            runs_started: 0,
            trace: 0,
            sample_crashes: false,
        };
        w.vfs.file_sync_commits_journal = w.knobs.fsync_journal;
        w.vfs.clock = w.clock;
        w.vfs.superuser = w.knobs.superuser;
        w.vfs.tmpfs = w.knobs.tmpfs;
        w
    }
    fn fork(&self) -> World {
        World {
            vfs: self.vfs.clone(),
            knobs: self.knobs.clone(),
            rng: self.rng.clone(),
            clock: self.clock,
            runs_started: self.runs_started,
            trace: 0,
            sample_crashes: false,
        }
    }

    /// Run one or several processes to their end (or to a power loss).
    pub fn run(&mut self, srv: &Server, stats: &mut Stats, specs: &[ProcSpec], watch: &[Vec<u8>], free: Option<i64>) -> StepRec {
        // Where a fault is placed by fraction, measure the fault-free run first.
        let mut ats: Vec<Vec<Option<u32>>> = Vec::new();
        for s in specs {
            let mut v: Vec<Option<u32>> = vec![None; s.faults.len()];
            if s.faults.iter().any(|f| matches!(f.at, At::Frac { .. })) {
                let mut dry = self.fork();
                let plain = ProcSpec { faults: vec![], ..s.clone() };
                let r = dry.run_inner(srv, stats, &[plain], &[vec![]], &[], None, true);
                for (i, f) in s.faults.iter().enumerate() {
                    if let At::Frac { mask, permille } = f.at {
                        let idx: Vec<usize> = r.procs[0]
                            .ops
                            .iter()
                            .enumerate()
                            .filter(|(_, o)| mask & o.cls.bit() != 0)
                            .map(|(k, _)| k)
                            .collect();
                        if !idx.is_empty() {
                            let k = (permille as usize * idx.len() / 1000).min(idx.len() - 1);
                            v[i] = Some(idx[k] as u32);
                        }
                    }
                }
            }
            ats.push(v);
        }
        self.run_inner(srv, stats, specs, &ats, watch, free, false)
    }

    fn run_inner(
        &mut self,
        srv: &Server,
        stats: &mut Stats,
        specs: &[ProcSpec],
        ats: &[Vec<Option<u32>>],
        watch: &[Vec<u8>],
        free: Option<i64>,
        quiet: bool,
    ) -> StepRec {
        self.vfs.free = free;
        let start_clock = self.clock;
        let mut procs: Vec<Proc> = Vec::new();
        let entries = self.vfs.inodes.len();
        for (i, s) in specs.iter().enumerate() {
            let mut argv = vec![b"mofmt".to_vec()];
            argv.extend(s.args.iter().cloned());
            // what one run may have to read, at 100 kB a second
            let work = s.args.len().max(1) * self.vfs.bytes();
            let h = srv.spawn(&argv, s.alloc_fail, CPU_SECONDS + (work / 100_000).min(200) as u32);
            let null = |t: Target, p: &str| Ofd {
                t,
                pos: 0,
                flags: 0,
                path: p.as_bytes().to_vec(),
                listing: None,
                idx: 0,
                read_from_start: false,
                acc: vec![],
            };
            let cwd = match self.vfs.lookup(self.vfs.root, &s.cwd) {
                Ok(i) if self.vfs.is_dir(i) => i,
                _ => self.vfs.root,
            };
            let pid = if self.knobs.pid_reuse {
                self.knobs.pid_base + self.knobs.pid_step * i as i64
            } else {
                self.knobs.pid_base + self.knobs.pid_step * self.runs_started as i64
            };
            self.runs_started += 1;
            procs.push(Proc {
                h,
                rec: ProcRec {
                    args: s.args.clone(),
                    cwd: s.cwd.clone(),
                    end: End::Killed,
                    out: vec![],
                    err: vec![],
                    ops: vec![],
                    fired: vec![],
                    alloc_fail: s.alloc_fail,
                    complete_reads: BTreeMap::new(),
                    escapes: vec![],
                },
                fds: [(0, 0), (1, 1), (2, 2)].into_iter().collect(),
                ofds: vec![null(Target::Null, "<stdin>"), null(Target::Out(1), "<stdout>"), null(Target::Out(2), "<stderr>")],
                cwd,
                pending: None,
                live: true,
                stall: 0,
                matched: vec![0; s.faults.len()],
                used: vec![0; s.faults.len()],
                at: ats[i].clone(),
                count: 0,
                counts: [0; ALL_CLS.len()],
                calls: 0,
                scheds: 0,
                thread_policy: 0,
                thread_ranks: vec![],
                budget: OP_BUDGET + 20 * s.args.len() * entries,
                pid,
            });
            stats.runs += 1;
        }
        let mut st = Step { w: self, stats, watch, seen: BTreeMap::new(), live: vec![], nop: 0, power: None, quiet };
        st.note_live();
        let mut switches = 0;
        let mut last = usize::MAX;
        // how eagerly the scheduler switches between processes
        let stickiness = if procs.len() > 1 { [0u32, 50, 90][st.w.rng.below(3)] } else { 0 };
        for p in procs.iter_mut() {
            Self::advance(srv, p);
        }
        while st.power.is_none() {
            let ready: Vec<usize> = (0..procs.len()).filter(|&i| procs[i].live).collect();
            if ready.is_empty() {
                break;
            }
            let free_to_go: Vec<usize> = ready.iter().copied().filter(|&i| procs[i].stall == 0).collect();
            let i = if ready.len() == 1 {
                procs[ready[0]].stall = 0;
                ready[0]
            } else if free_to_go.is_empty() {
                for &k in &ready {
                    procs[k].stall -= 1;
                }
                continue;
            } else {
                for &k in &ready {
                    procs[k].stall = procs[k].stall.saturating_sub(1);
                }
                if free_to_go.contains(&last) && st.w.rng.pct(stickiness) {
                    last
                } else {
                    *st.w.rng.pick(&free_to_go)
                }
            };
            if i != last {
                switches += 1;
                last = i;
            }
            let spec_faults = &specs[i].faults;
            st.turn(srv, &mut procs[i], i, spec_faults);
        }
        if let Some(seed) = st.power {
            st.stats.power_losses += 1;
            for p in procs.iter_mut() {
                if p.live {
                    p.h.die(9);
                    srv.wait(&p.h);
                    p.live = false;
                    p.rec.end = End::PowerLost;
                }
            }
            let mut r = Rng::new(seed);
            st.w.vfs = st.w.vfs.after_power_loss(&mut r);
            st.note(None, "after the power loss");
        }
        let power_lost = st.power.is_some();
        let seen = std::mem::take(&mut st.seen);
        drop(st);
        self.vfs.free = None;
        if !quiet {
            stats.switches += switches as u64;
            stats.sim_ns += (self.clock - start_clock) as u128;
            for p in &procs {
                stats.ops += p.rec.ops.len() as u64;
            }
            stats.traces.insert(self.trace);
        }
        StepRec { procs: procs.into_iter().map(|p| p.rec).collect(), seen, power_lost, switches }
    }

    fn advance(srv: &Server, p: &mut Proc) {
        match p.h.next(GUARD_MS) {
            Next::Req(r) => p.pending = Some(r),
            Next::Gone => {
                p.live = false;
                p.rec.end = match srv.wait(&p.h) {
                    Status::Exit(c) => End::Exit(c),
                    Status::Signal(24) => End::Hung, // SIGXCPU
                    Status::Signal(s) => End::Signal(s),
                };
            }
            Next::Hung => {
                srv.kill(&p.h);
                srv.wait(&p.h);
                p.live = false;
                p.rec.end = End::Hung;
            }
        }
    }
}

impl<'a> Step<'a> {
    /// Record what every watched path holds now.
    fn note(&mut self, v: Option<&Vfs>, how: &'static str) {
        let at_op = self.nop;
        let vfs = v.unwrap_or(&self.w.vfs);
        for p in self.watch {
            let d = vfs.read_path(p);
            let l = self.seen.entry(p.clone()).or_default();
            if !l.iter().any(|s| match (&s.data, &d) {
                (None, None) => true,
                (Some(a), Some(b)) => Arc::ptr_eq(a, b) || a == b,
                _ => false,
            }) {
                l.push(Seen { data: d, at_op, how });
            }
        }
    }
    fn note_live(&mut self) {
        let now: Vec<Option<Bytes>> = self.watch.iter().map(|p| self.w.vfs.read_path(p)).collect();
        let same = |a: &Option<Bytes>, b: &Option<Bytes>| match (a, b) {
            (Some(a), Some(b)) => Arc::ptr_eq(a, b),
            (a, b) => a.is_none() && b.is_none(),
        };
        if self.live.len() == now.len() && self.live.iter().zip(&now).all(|(a, b)| same(a, b)) {
            return;
        }
        self.note(None, "live");
        if !self.quiet && self.stats.states.len() < 2_000_000 {
            let h = now.iter().flatten().fold(0u64, |h, d| mix(h ^ hash_bytes(d)));
            self.stats.states.insert(h);
        }
        self.live = now;
    }
    fn after_change(&mut self) {
        self.note_live();
        if self.w.sample_crashes {
            for _ in 0..2 {
                let v = self.w.vfs.after_power_loss(&mut self.w.rng);
                self.stats.crash_samples += 1;
                self.note(Some(&v), "after a power loss here");
            }
        }
    }

    fn turn(&mut self, srv: &Server, p: &mut Proc, pi: usize, faults: &[Fault]) {
        let req = match p.pending.take() {
            Some(r) => r,
            None => return,
        };
        if req.op == 39 {
            return self.choose_thread(srv, p, pi, &req);
        }
        let (cls, path) = op_cls(
            |fd| {
                p.fds.get(&fd).map(|&o| {
                    let x = &p.ofds[o];
                    let k = match x.t {
                        Target::File(_) => 0,
                        Target::Dir(_) => 1,
                        Target::Out(1) => 2,
                        Target::Out(_) => 3,
                        Target::Null => 4,
                    };
                    (k, x.path.clone())
                })
            },
            &req,
        );
        self.nop += 1;
        let lat = 1 + self.w.rng.below(self.w.knobs.latency.max(1) as usize) as i64;
        self.w.clock += lat;
        self.w.vfs.clock = self.w.clock;
        let idx = p.count;
        p.count += 1;
        p.counts[cls as usize] += 1;
        // which fault, if any, hits this operation
        let mut hit: Option<usize> = None;
        for (i, f) in faults.iter().enumerate() {
            if p.used[i] >= f.times || req.op >= 37 {
                continue;
            }
            let m = match &f.at {
                At::Nth { mask, suffix, nth } => {
                    if mask & cls.bit() != 0 && path.ends_with(suffix) {
                        let k = p.matched[i];
                        p.matched[i] += 1;
                        k >= *nth
                    } else {
                        false
                    }
                }
                At::Frac { mask, .. } => match p.at[i] {
                    Some(k) => idx >= k && (f.times > 1 || idx == k) && (mask & cls.bit() != 0),
                    None => false,
                },
            };
            if m && hit.is_none() {
                hit = Some(i);
            }
        }
        let before = self.w.vfs.changes;
        let verdict = match hit {
            None => self.serve(p, &req, u32::MAX),
            Some(i) => {
                p.used[i] += 1;
                let kind = faults[i].kind.clone();
                let mut errno = 0;
                let v = match &kind {
                    Kind::Err(e) => {
                        errno = *e;
                        self.fail(p, &req, cls, *e)
                    }
                    Kind::AnyErr(k) => {
                        errno = plausible(cls, *k);
                        self.fail(p, &req, cls, errno)
                    }
                    Kind::Short(k) => self.serve(p, &req, *k),
                    Kind::Kill => Verdict::Die,
                    Kind::KillAfter => {
                        self.serve(p, &req, u32::MAX);
                        Verdict::Die
                    }
                    Kind::Torn(k) => {
                        self.serve(p, &req, *k);
                        Verdict::Die
                    }
                    Kind::Power(s) => Verdict::Power(*s),
                    Kind::PowerAfter(s) => {
                        self.serve(p, &req, u32::MAX);
                        Verdict::Power(*s)
                    }
                    Kind::Stall(n) => {
                        p.stall = *n;
                        self.w.clock += *n as i64 * 1_000_000;
                        // the operation itself is served after the stall
                        p.count -= 1;
                        p.counts[cls as usize] -= 1;
                        p.rec.fired.push(Fired { cls, path: path.clone(), kind: kind.clone(), errno, op: idx });
                        self.tally(&kind, cls);
                        p.pending = Some(req);
                        return;
                    }
                    Kind::Ext(e) => {
                        self.external(e);
                        self.serve(p, &req, u32::MAX)
                    }
                };
                self.tally(&kind, cls);
                p.rec.fired.push(Fired { cls, path: path.clone(), kind, errno, op: idx });
                v
            }
        };
        let mutated = self.w.vfs.changes != before;
        let (ret, err) = match &verdict {
            Verdict::Reply(r, e, _) => (*r, *e),
            _ => (i64::MIN, 0),
        };
        p.rec.ops.push(OpRec { cls, op: req.op, path: path.clone(), ret, err, mutated });
        let t = mix(hash_bytes(&path) ^ (req.op as u64) << 8 ^ pi as u64) ^ mix(ret as u64 ^ (err as u64) << 32);
        self.w.trace = mix(self.w.trace ^ t);
        if mutated {
            self.after_change();
        }
        match verdict {
            Verdict::Reply(r, e, d) => {
                if !matches!(cls, Cls::Read | Cls::Write | Cls::Out | Cls::ErrOut) {
                    p.calls += 1;
                }
                if p.calls > p.budget || p.rec.ops.len() > ALL_BUDGET {
                    p.h.die(9);
                    srv.wait(&p.h);
                    p.live = false;
                    p.rec.end = End::Budget;
                    return;
                }
                p.h.reply(r, e, &d);
                World::advance(srv, p);
            }
            Verdict::Die => {
                self.stats.kills += 1;
                p.h.die(9);
                srv.wait(&p.h);
                p.live = false;
                p.rec.end = End::Killed;
            }
            Verdict::Power(s) => self.power = Some(s),
        }
    }
    /// A program with several runnable threads asks which one goes next.
    fn choose_thread(&mut self, srv: &Server, p: &mut Proc, pi: usize, req: &Req) {
        let ready: Vec<i64> = (0..req.p1.len() as i64 * 8).filter(|i| req.p1[*i as usize / 8] >> (i % 8) & 1 == 1).collect();
        p.scheds += 1;
        if ready.is_empty() || p.scheds > ALL_BUDGET {
            // every thread waits for another one
            p.h.die(9);
            srv.wait(&p.h);
            p.live = false;
            p.rec.end = if ready.is_empty() { End::Hung } else { End::Budget };
            return;
        }
        if p.thread_ranks.is_empty() {
            // 0, 1: switch always, rarely; 2: fixed ranks, sometimes drawn anew
            p.thread_policy = self.w.rng.below(3);
            p.thread_ranks = vec![0];
        }
        let current = req.a[0];
        let n = match p.thread_policy {
            1 if ready.contains(&current) && self.w.rng.pct(90) => current,
            2 => {
                let top = *ready.last().unwrap() as usize;
                while p.thread_ranks.len() <= top {
                    let r = self.w.rng.u64();
                    p.thread_ranks.push(r);
                }
                let n = *ready.iter().max_by_key(|i| p.thread_ranks[**i as usize]).unwrap();
                if self.w.rng.pct(10) {
                    p.thread_ranks[n as usize] = self.w.rng.u64();
                }
                n
            }
            _ => *self.w.rng.pick(&ready),
        };
        if n != current && !self.quiet {
            self.stats.thread_switches += 1;
        }
        self.w.trace = mix(self.w.trace ^ mix(n as u64 ^ (pi as u64) << 32 ^ 39 << 48));
        p.h.reply(n, 0, &[]);
        World::advance(srv, p);
    }
    fn tally(&mut self, k: &Kind, c: Cls) {
        if self.quiet {
            return;
        }
        let n = match k {
            Kind::Err(EINTR) => format!("{}:EINTR", c.name()),
            Kind::Err(_) | Kind::AnyErr(_) => format!("{}:error", c.name()),
            Kind::Short(_) => format!("{}:short", c.name()),
            Kind::Kill | Kind::KillAfter => "kill".into(),
            Kind::Torn(_) => "kill-mid-write".into(),
            Kind::Power(_) | Kind::PowerAfter(_) => "power-loss".into(),
            Kind::Stall(_) => "stall".into(),
            Kind::Ext(Ext::Remove(_)) => "file-vanishes".into(),
            Kind::Ext(Ext::Chmod(..)) => "permissions-change".into(),
            Kind::Ext(Ext::Create(..)) => "file-appears".into(),
        };
        *self.stats.faults.entry(n).or_insert(0) += 1;
    }
    fn external(&mut self, e: &Ext) {
        let v = &mut self.w.vfs;
        match e {
            Ext::Remove(p) => {
                if let Ok(r) = v.resolve(v.root, p, false) {
                    if r.ino.is_some() && !r.name.is_empty() {
                        v.del_entry(r.dir, &r.name);
                    }
                }
            }
            Ext::Chmod(p, m) => {
                if let Ok(i) = v.lookup(v.root, p) {
                    v.inodes.get_mut(&i).unwrap().mode = *m;
                    v.changes += 1;
                }
            }
            Ext::Create(p, d) => {
                if v.lookup(v.root, p).is_err() {
                    v.put_file(p, d.clone(), 0o644);
                    v.sync_all();
                }
            }
        }
    }
    /// An operation fails with `e`; some leave a partial effect behind.
    fn fail(&mut self, p: &mut Proc, r: &Req, cls: Cls, e: i32) -> Verdict {
        if cls == Cls::Fsync && e == EIO {
            // what is in the cache stays visible, and never becomes durable
            if let Some(Target::File(i)) = p.fds.get(&r.a[0]).map(|&o| &p.ofds[o].t) {
                if let Some(n) = self.w.vfs.inodes.get_mut(i) {
                    if let Node::File(f) = &mut n.node {
                        f.lost = true;
                    }
                }
            }
        }
        if r.op == 2 {
            // close always releases the descriptor
            p.fds.remove(&r.a[0]);
        }
        Verdict::Reply(-1, e, vec![])
    }

    /// What the environment holds is anybody's guess; RUST_ variables are the
    /// runtime's own.
    fn environment(&self, name: &[u8]) -> Option<Vec<u8>> {
        const VALUES: [&str; 18] =
            ["", "0", "1", "no", "true", "/tmp", "/w", "/nowhere", "C", "en_US.ISO-8859-1", "80", "4", "dumb", "\u{e4}", "never", "2147483648", "debug", ":"];
        if self.w.knobs.env == 0 || name.starts_with(b"RUST") {
            return None;
        }
        if name == b"TMPDIR" {
            return Some(b"/tmp".to_vec());
        }
        let h = mix(hash_bytes(name) ^ self.w.knobs.env);
        if h % 4 == 0 {
            return None;
        }
        Some(VALUES[(h >> 8) as usize % VALUES.len()].as_bytes().to_vec())
    }

    fn at_dir(&self, p: &Proc, dfd: i64) -> Result<Ino, i32> {
        if dfd == AT_FDCWD {
            return Ok(p.cwd);
        }
        match p.fds.get(&dfd).map(|&o| &p.ofds[o].t) {
            Some(Target::Dir(i)) => Ok(*i),
            Some(_) => Err(ENOTDIR),
            None => Err(EBADF),
        }
    }

    fn serve(&mut self, p: &mut Proc, r: &Req, permille: u32) -> Verdict {
        match self.serve_inner(p, r, permille) {
            Ok((ret, d)) => Verdict::Reply(ret, 0, d),
            Err(e) => Verdict::Reply(-1, e, vec![]),
        }
    }
    fn limit(&self, n: usize, permille: u32) -> usize {
        let mut n = n;
        if self.w.knobs.max_io > 0 {
            // large transfers in larger pieces
            n = n.min((self.w.knobs.max_io as usize).max(n / 64));
        }
        if permille != u32::MAX && n > 0 {
            n = (n * permille as usize / 1000).max(1);
        }
        n
    }
    fn serve_inner(&mut self, p: &mut Proc, r: &Req, permille: u32) -> Result<(i64, Vec<u8>), i32> {
        let a = r.a;
        let none = Vec::new;
        let max_fds = self.w.knobs.max_fds;
        let umask = self.w.knobs.umask;
        match r.op {
            1 => {
                let fl = a[1];
                let base = self.at_dir(p, a[0])?;
                let v = &mut self.w.vfs;
                if fl & O_TMPFILE == O_TMPFILE {
                    return Err(95);
                }
                let mut fd = 3;
                while p.fds.contains_key(&fd) {
                    fd += 1;
                }
                if fd >= max_fds {
                    return Err(EMFILE);
                }
                let res = v.resolve(base, &r.p1, fl & O_NOFOLLOW == 0 && !(fl & O_CREAT != 0 && fl & O_EXCL != 0))?;
                let wr = fl & O_ACCMODE != 0;
                let rd = fl & O_ACCMODE != 1;
                let ino = match res.ino {
                    None => {
                        if fl & O_CREAT == 0 {
                            return Err(ENOENT);
                        }
                        if res.name.is_empty() || r.p1.last() == Some(&b'/') {
                            return Err(EISDIR);
                        }
                        if !v.may(res.dir, 3) {
                            return Err(EACCES);
                        }
                        if v.free == Some(0) {
                            return Err(ENOSPC);
                        }
                        let d: Bytes = Arc::new(vec![]);
                        let i = v.alloc(Node::File(FileData { data: d.clone(), durable: d, unsynced: vec![], lost: false }), (a[2] as u32) & 0o7777 & !umask);
                v.owned_by_run(i);
                        v.add_entry(res.dir, &res.name, i);
                        i
                    }
                    Some(i) => {
                        if fl & O_CREAT != 0 && fl & O_EXCL != 0 {
                            return Err(EEXIST);
                        }
                        match &v.inodes[&i].node {
                            Node::Link(_) => return Err(ELOOP),
                            Node::Dir(_) => {
                                if wr || fl & O_CREAT != 0 {
                                    return Err(EISDIR);
                                }
                            }
                            Node::File(_) => {
                                if fl & O_DIRECTORY != 0 {
                                    return Err(ENOTDIR);
                                }
                            }
                        }
                        let mut need = 0;
                        if rd {
                            need |= 4;
                        }
                        if wr {
                            need |= 2;
                        }
                        if fl & O_PATH == 0 && !v.may(i, need) {
                            return Err(EACCES);
                        }
                        if fl & O_TRUNC != 0 && wr {
                            v.truncate(i, 0)?;
                        }
                        i
                    }
                };
                let path = if v.is_dir(ino) { v.path_of(ino) } else { v.place(&res) };
                let t = if v.is_dir(ino) { Target::Dir(ino) } else { Target::File(ino) };
                p.ofds.push(Ofd { t, pos: 0, flags: fl, path, listing: None, idx: 0, read_from_start: true, acc: vec![] });
                p.fds.insert(fd, p.ofds.len() - 1);
                Ok((fd, none()))
            }
            2 => {
                p.fds.remove(&a[0]).ok_or(EBADF)?;
                Ok((0, none()))
            }
            3 => {
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                let want = self.limit(a[1].max(0) as usize, permille);
                let ofd = &mut p.ofds[o];
                match ofd.t {
                    Target::Null | Target::Out(_) => Ok((0, none())),
                    Target::Dir(_) => Err(EISDIR),
                    Target::File(i) => {
                        if ofd.flags & O_ACCMODE == 1 || ofd.flags & O_PATH != 0 {
                            return Err(EBADF);
                        }
                        let d = self.w.vfs.file(i).ok_or(EIO)?.data.clone();
                        let pos = if a[2] >= 0 { a[2] as usize } else { ofd.pos };
                        let end = (pos + want).min(d.len());
                        let out = if pos < d.len() { d[pos..end].to_vec() } else { vec![] };
                        if a[2] < 0 {
                            if ofd.pos == 0 && ofd.acc.is_empty() {
                                ofd.read_from_start = true;
                            }
                            ofd.pos += out.len();
                            ofd.acc.extend_from_slice(&out);
                            if out.is_empty() && want > 0 {
                                let l = p.rec.complete_reads.entry(ofd.path.clone()).or_default();
                                let acc = ofd.acc.clone();
                                if l.last() != Some(&acc) {
                                    l.push(acc);
                                }
                            }
                        }
                        Ok((out.len() as i64, out))
                    }
                }
            }
            4 => {
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                let n = self.limit(r.p1.len(), permille);
                let data = &r.p1[..n];
                match p.ofds[o].t {
                    Target::Out(1) => {
                        p.rec.out.extend_from_slice(data);
                        Ok((n as i64, none()))
                    }
                    Target::Out(_) => {
                        p.rec.err.extend_from_slice(data);
                        Ok((n as i64, none()))
                    }
                    Target::Null => Err(EBADF),
                    Target::Dir(_) => Err(EBADF),
                    Target::File(i) => {
                        if p.ofds[o].flags & O_ACCMODE == 0 {
                            return Err(EBADF);
                        }
                        if n == 0 {
                            return Ok((0, none()));
                        }
                        let len = self.w.vfs.file(i).ok_or(EIO)?.data.len();
                        let pos = if a[1] >= 0 {
                            a[1] as usize
                        } else if p.ofds[o].flags & O_APPEND != 0 {
                            len
                        } else {
                            p.ofds[o].pos
                        };
                        let k = self.w.vfs.write(i, pos, data)?;
                        if a[1] < 0 {
                            p.ofds[o].pos = pos + k;
                        }
                        Ok((k as i64, none()))
                    }
                }
            }
            5 => {
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                let ofd = &mut p.ofds[o];
                let i = match ofd.t {
                    Target::File(i) => i,
                    Target::Dir(_) => return Ok((0, none())),
                    _ => return Err(29),
                };
                let len = self.w.vfs.file(i).ok_or(EIO)?.data.len() as i64;
                let n = match a[2] {
                    0 => a[1],
                    1 => ofd.pos as i64 + a[1],
                    2 => len + a[1],
                    _ => return Err(EINVAL),
                };
                if n < 0 {
                    return Err(EINVAL);
                }
                if n as usize != ofd.pos {
                    ofd.acc.clear();
                }
                ofd.pos = n as usize;
                Ok((n, none()))
            }
            6 => {
                let ino = if r.p1.is_empty() {
                    if a[1] & AT_EMPTY_PATH == 0 {
                        return Err(ENOENT);
                    }
                    let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                    match p.ofds[o].t {
                        Target::File(i) | Target::Dir(i) => i,
                        _ => {
                            let mut m = vec![0u8; 48];
                            m[24..28].copy_from_slice(&0o010644u32.to_le_bytes());
                            return Ok((0, m));
                        }
                    }
                } else {
                    let base = self.at_dir(p, a[0])?;
                    self.w.vfs.resolve(base, &r.p1, a[1] & AT_NOFOLLOW == 0)?.ino.ok_or(ENOENT)?
                };
                let n = &self.w.vfs.inodes[&ino];
                let (ty, size) = match &n.node {
                    Node::File(f) => (0o100000u32, f.data.len() as u64),
                    Node::Dir(_) => (0o040000, 4096),
                    Node::Link(t) => (0o120000, t.len() as u64),
                };
                let mut m = Vec::with_capacity(48);
                m.extend_from_slice(&ino.to_le_bytes());
                m.extend_from_slice(&size.to_le_bytes());
                m.extend_from_slice(&n.mtime.to_le_bytes());
                m.extend_from_slice(&(ty | n.mode).to_le_bytes());
                m.extend_from_slice(&self.w.vfs.names_of(ino).to_le_bytes());
                m.extend_from_slice(&n.uid.to_le_bytes());
                m.extend_from_slice(&n.gid.to_le_bytes());
                // struct layout: ino,size,mtime (24) mode,nlink,uid,gid (16) = 40
                Ok((0, m))
            }
            7 => {
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                match p.ofds[o].t {
                    Target::File(i) if p.ofds[o].flags & O_ACCMODE != 0 => {
                        self.w.vfs.truncate(i, a[1].max(0) as usize)?;
                        Ok((0, none()))
                    }
                    _ => Err(EINVAL),
                }
            }
            8 => {
                let i = self.w.vfs.lookup(p.cwd, &r.p1)?;
                if !self.w.vfs.may(i, 2) {
                    return Err(EACCES);
                }
                self.w.vfs.truncate(i, a[0].max(0) as usize)?;
                Ok((0, none()))
            }
            9 => {
                if a[1] == 2 {
                    self.w.vfs.sync_all();
                    return Ok((0, none()));
                }
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                match p.ofds[o].t {
                    Target::File(i) | Target::Dir(i) => self.w.vfs.fsync(i),
                    _ => return Err(EINVAL),
                }
                Ok((0, none()))
            }
            10 => {
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                let d = match p.ofds[o].t {
                    Target::Dir(i) => i,
                    _ => return Err(ENOTDIR),
                };
                if p.ofds[o].listing.is_none() {
                    let v = &self.w.vfs;
                    let mut l: Vec<(Vec<u8>, Ino)> = v.dir(d).ok_or(ENOENT)?.iter().map(|(k, i)| (k.clone(), *i)).collect();
                    match self.w.knobs.dir_order {
                        0 => {}
                        1 => l.reverse(),
                        s => Rng::new(s ^ hash_bytes(&p.ofds[o].path)).shuffle(&mut l),
                    }
                    // "." and ".." come somewhere too
                    l.insert(0, (b".".to_vec(), d));
                    let at = if self.w.knobs.dir_order > 1 { l.len() / 2 } else { 1 };
                    l.insert(at, (b"..".to_vec(), d));
                    p.ofds[o].listing = Some(l);
                }
                let ofd = &mut p.ofds[o];
                let l = ofd.listing.as_ref().unwrap();
                if ofd.idx >= l.len() {
                    return Ok((0, none()));
                }
                let (name, ino) = l[ofd.idx].clone();
                ofd.idx += 1;
                let ty = if self.w.knobs.dtype_unknown {
                    0
                } else {
                    match &self.w.vfs.inodes[&ino].node {
                        Node::File(_) => 8,
                        Node::Dir(_) => 4,
                        Node::Link(_) => 10,
                    }
                };
                Ok((((ino as i64) << 8) | ty, name))
            }
            35 => {
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                p.ofds[o].listing = None;
                p.ofds[o].idx = 0;
                Ok((0, none()))
            }
            11 => {
                let base = self.at_dir(p, a[0])?;
                let v = &mut self.w.vfs;
                let res = v.resolve(base, &r.p1, false)?;
                if res.ino.is_some() {
                    return Err(EEXIST);
                }
                if !v.may(res.dir, 3) {
                    return Err(EACCES);
                }
                let i = v.alloc(Node::Dir(BTreeMap::new()), a[1] as u32 & 0o7777 & !umask);
                v.owned_by_run(i);
                v.add_entry(res.dir, &res.name, i);
                Ok((0, none()))
            }
            12 | 13 => {
                let base = self.at_dir(p, a[0])?;
                let v = &mut self.w.vfs;
                let res = v.resolve(base, &r.p1, false)?;
                let i = res.ino.ok_or(ENOENT)?;
                if !v.may(res.dir, 3) {
                    return Err(EACCES);
                }
                match (r.op, v.dir(i)) {
                    (12, None) => return Err(ENOTDIR),
                    (12, Some(d)) if !d.is_empty() => return Err(ENOTEMPTY),
                    (13, Some(_)) => return Err(EISDIR),
                    _ => {}
                }
                v.del_entry(res.dir, &res.name);
                Ok((0, none()))
            }
            14 => {
                let (b1, b2) = (self.at_dir(p, a[0])?, self.at_dir(p, a[1])?);
                let v = &mut self.w.vfs;
                let s = v.resolve(b1, &r.p1, false)?;
                let d = v.resolve(b2, &r.p2, false)?;
                s.ino.ok_or(ENOENT)?;
                if a[2] & 1 != 0 && d.ino.is_some() {
                    return Err(EEXIST);
                }
                if a[2] & !1 != 0 {
                    return Err(EINVAL);
                }
                v.rename(s.dir, &s.name, d.dir, &d.name)?;
                Ok((0, none()))
            }
            15 => {
                let (b1, b2) = (self.at_dir(p, a[0])?, self.at_dir(p, a[1])?);
                let v = &mut self.w.vfs;
                let s = v.resolve(b1, &r.p1, false)?;
                let i = s.ino.ok_or(ENOENT)?;
                if v.is_dir(i) {
                    return Err(1);
                }
                let d = v.resolve(b2, &r.p2, false)?;
                if d.ino.is_some() {
                    return Err(EEXIST);
                }
                if !v.may(d.dir, 3) {
                    return Err(EACCES);
                }
                if v.device(s.dir) != v.device(d.dir) {
                    return Err(EXDEV);
                }
                v.hard = true;
                v.add_entry(d.dir, &d.name, i);
                Ok((0, none()))
            }
            16 => {
                let base = self.at_dir(p, a[0])?;
                let v = &mut self.w.vfs;
                let d = v.resolve(base, &r.p2, false)?;
                if d.ino.is_some() {
                    return Err(EEXIST);
                }
                if !v.may(d.dir, 3) {
                    return Err(EACCES);
                }
                let i = v.alloc(Node::Link(r.p1.clone()), 0o777);
                v.owned_by_run(i);
                v.add_entry(d.dir, &d.name, i);
                Ok((0, none()))
            }
            17 => {
                let base = self.at_dir(p, a[0])?;
                let i = self.w.vfs.resolve(base, &r.p1, false)?.ino.ok_or(ENOENT)?;
                match &self.w.vfs.inodes[&i].node {
                    Node::Link(t) => {
                        let n = t.len().min(a[1].max(0) as usize);
                        Ok((n as i64, t[..n].to_vec()))
                    }
                    _ => Err(EINVAL),
                }
            }
            18 => {
                let res = self.w.vfs.resolve(p.cwd, &r.p1, true)?;
                res.ino.ok_or(ENOENT)?;
                let s = self.w.vfs.place(&res);
                Ok((s.len() as i64, s))
            }
            19 | 20 => {
                let i = if r.op == 19 {
                    let base = self.at_dir(p, a[0])?;
                    self.w.vfs.lookup(base, &r.p1)?
                } else {
                    let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                    match p.ofds[o].t {
                        Target::File(i) | Target::Dir(i) => i,
                        _ => return Err(EINVAL),
                    }
                };
                let mode = if r.op == 19 { a[1] } else { a[1] } as u32 & 0o7777;
                let v = &mut self.w.vfs;
                let su = v.superuser;
                let n = v.inodes.get_mut(&i).unwrap();
                if n.uid != UID && !su {
                    return Err(1);
                }
                if n.mode != mode {
                    n.mode = mode;
                    v.changes += 1;
                }
                Ok((0, none()))
            }
            21 | 22 => {
                let i = if r.op == 21 {
                    self.w.vfs.lookup(p.cwd, &r.p1)?
                } else {
                    let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                    match p.ofds[o].t {
                        Target::File(i) | Target::Dir(i) => i,
                        _ => return Err(EINVAL),
                    }
                };
                let (u, g) = if r.op == 21 { (a[0], a[1]) } else { (a[1], a[2]) };
                let su = self.w.vfs.superuser;
                let n = self.w.vfs.inodes.get_mut(&i).unwrap();
                let keep = |x: i64, cur: u32| x as u32 == u32::MAX || x as u32 == cur;
                let same = keep(u, n.uid) && keep(g, n.gid);
                if same || su {
                    // the kernel takes the set-id bits away, whoever asks
                    if matches!(n.node, Node::File(_)) {
                        n.mode = crate::vfs::without_ids(n.mode);
                    }
                }
                if same {
                    Ok((0, none()))
                } else if su {
                    if u as u32 != u32::MAX {
                        n.uid = u as u32;
                    }
                    if g as u32 != u32::MAX {
                        n.gid = g as u32;
                    }
                    self.w.vfs.changes += 1;
                    Ok((0, none()))
                } else {
                    Err(1)
                }
            }
            23 => {
                self.w.vfs.changes += 1;
                Ok((0, none()))
            }
            24 => {
                let base = self.at_dir(p, a[0])?;
                let i = self.w.vfs.resolve(base, &r.p1, true)?.ino.ok_or(ENOENT)?;
                if self.w.vfs.may(i, a[1] as u32 & 7) {
                    Ok((0, none()))
                } else {
                    Err(EACCES)
                }
            }
            25 => {
                let s = self.w.vfs.path_of(p.cwd);
                Ok((s.len() as i64, s))
            }
            26 => {
                let i = self.w.vfs.lookup(p.cwd, &r.p1)?;
                if !self.w.vfs.is_dir(i) {
                    return Err(ENOTDIR);
                }
                p.cwd = i;
                Ok((0, none()))
            }
            27 => {
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                match a[1] {
                    0 | 1030 => {
                        let mut fd = a[2].max(0);
                        while p.fds.contains_key(&fd) {
                            fd += 1;
                        }
                        p.fds.insert(fd, o);
                        Ok((fd, none()))
                    }
                    3 => Ok((p.ofds[o].flags, none())),
                    _ => Ok((0, none())),
                }
            }
            28 => {
                let o = *p.fds.get(&a[0]).ok_or(EBADF)?;
                let mut fd = a[1];
                if fd < 0 {
                    fd = 0;
                    while p.fds.contains_key(&fd) {
                        fd += 1;
                    }
                }
                p.fds.insert(fd, o);
                Ok((fd, none()))
            }
            29 => Ok((0, none())),
            30 => Ok((p.pid, none())),
            31 => Ok((self.w.clock, none())),
            32 => {
                let n = a[0].max(0) as usize;
                let d: Vec<u8> = (0..n).map(|_| self.w.rng.u64() as u8).collect();
                Ok((n as i64, d))
            }
            33 => {
                self.w.clock += a[0].max(0);
                Ok((0, none()))
            }
            34 => {
                p.rec.escapes.push(String::from_utf8_lossy(&r.p1).into_owned());
                Ok((0, none()))
            }
            36 => Ok((0, none())),
            37 => {
                let v = self.environment(&r.p1);
                Ok((v.is_some() as i64, v.unwrap_or_default()))
            }
            40 => Ok(([1, 2, 4, 4, 8, 16][(mix(self.w.knobs.pid_base as u64 ^ self.w.knobs.clock as u64) % 6) as usize], none())),
            38 => Ok((if self.w.vfs.superuser { 0 } else { UID as i64 }, none())),
            _ => Err(38),
        }
    }
}
