//! The simulated machine: sessions, scheduler, clocks, faults, event log.

use crate::client::ClientState;
use crate::fs::*;
use crate::oracle::Truth;
use crate::rng::*;
use crate::scenario::*;

pub struct User {
    pub name: Option<&'static str>,
    pub uid: u32,
    pub gid: u32,
    pub groups: &'static [u32],
}

/// alice, bob and dave share the group of the repository; carol does not;
/// uid 1005 has no passwd entry; ali's primary group is the shared one, and that name begins another's;
/// two more names are like alice's.
pub const USERS: [User; 9] = [
    User { name: Some("root"), uid: 0, gid: 0, groups: &[] },
    User { name: Some("alice"), uid: 1000, gid: 1000, groups: &[2000] },
    User { name: Some("bob"), uid: 1001, gid: 1001, groups: &[2000] },
    User { name: Some("carol"), uid: 1002, gid: 1002, groups: &[] },
    User { name: Some("dave d"), uid: 1003, gid: 1003, groups: &[2000] },
    User { name: None, uid: 1005, gid: 1005, groups: &[2000] },
    User { name: Some("ali"), uid: 1006, gid: 2000, groups: &[] },
    User { name: Some("Alice"), uid: 1007, gid: 1007, groups: &[2000] },
    User { name: Some("\u{e4}lice"), uid: 1008, gid: 1008, groups: &[2000] },
];

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Abort,
    Killed,
    Power,
}

#[derive(Clone, Debug, PartialEq)]
pub enum State {
    Waiting,
    Ready,
    Done(End),
}

#[derive(Clone, Debug, PartialEq)]
pub enum OfKind {
    In,
    Out,
    Err,
    File(Ino),
    Dir(Ino),
    Null,
    Rand,
    PipeR(usize),
    PipeW(usize),
}

#[derive(Default)]
pub struct Pipe {
    pub data: std::collections::VecDeque<u8>,
    pub readers: u32,
    pub writers: u32,
}

/// The pager: what it was started as and by whom, and what it has read.
#[derive(Default)]
pub struct PagerState {
    pub by: Option<usize>,
    pub argv: Vec<String>,
    pub pipe: Option<usize>,
    pub got: Vec<u8>,
    pub marks: Vec<(usize, u64)>,
    pub idle: u32,
    pub eof: bool,
    pub waited: bool,
    pub starts: u32,
}

pub struct OpenFile {
    pub kind: OfKind,
    pub off: u64,
    pub flags: i32,
    pub refs: u32,
    pub lfs: bool,
    pub path: String,
}

pub struct DirStream {
    pub fd: usize,
    pub ino: Ino,
    pub last: Option<(u64, Vec<u8>)>,
    pub buf: Vec<(Vec<u8>, Ino)>,
    pub pos: usize,
    pub eof: bool,
}

#[derive(Clone, Debug)]
pub struct FaultHit {
    pub step: u64,
    pub class: Class,
    pub act: Act,
}

#[derive(Clone, Debug)]
pub struct Touch {
    pub step: u64,
    pub sess: usize,
    pub kind: &'static str,
    pub path: String,
    pub mutation: bool,
    pub ok: bool,
    pub greeted: bool,
}

pub struct Session {
    pub spec: Sess,
    pub state: State,
    pub fds: Vec<Option<usize>>,
    pub dirs: Vec<Option<DirStream>>,
    pub cwd: Ino,
    pub cred: Cred,
    pub counts: [u32; 18],
    pub yields: u32,
    pub client: ClientState,
    pub stderr: Vec<u8>,
    pub sigpipe_default: bool,
    pub rng: Rng,
    pub chunk_rng: Rng,
    pub hits: Vec<FaultHit>,
    pub in_broken: Option<i32>,
    pub out_broken: Option<i32>,
    pub start_step: u64,
    pub end_step: u64,
    pub paused_until: u64,
    pub prio: u64,
    pub refused: Vec<String>,
    pub blocked: bool,
    pub action: usize,
    pub out_failed_step: Option<u64>,
    pub pid: i64,
    pub mem_stack: usize,
    pub spawned: Vec<Vec<String>>,
    pub dups: Vec<(i32, i32)>,
    /// a reference was read that was replaced after its size had been looked up
    pub torn: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub prop: String,
    pub kind: String,
    pub msg: String,
}

/// the step from which on input and output are no longer cut into pieces
pub const PIECES: u64 = 100_000;

pub struct World {
    pub sc: Scenario,
    pub fs: Fs,
    pub files: Vec<OpenFile>,
    pub s: Vec<Session>,
    pub cur: usize,
    pub step: u64,
    pub wall: i128,
    pub mono: i128,
    pub simulated: i128,
    pub tick: u64,
    pub sched_rng: Rng,
    pub explicit: std::collections::HashMap<(u32, u32), u32>,
    pub switches: Vec<(u32, u32, u32)>,
    pub change_points: Vec<u64>,
    pub hash: u64,
    pub inter: u64,
    pub epoch: u32,
    pub power: Option<(u32, u64)>,
    pub power_steps: Vec<u64>,
    pub stop: bool,
    pub violations: Vec<Violation>,
    pub truth: Truth,
    pub git: crate::gitrepo::GitTruth,
    pub lfs: String,
    pub gitdir: String,
    pub fired: std::collections::BTreeMap<String, u64>,
    pub trace: Option<Vec<String>>,
    pub dirlocks: std::collections::HashMap<Ino, (usize, bool)>,
    pub probes: std::collections::BTreeMap<String, u64>,
    pub yields_total: u64,
    pub harness_error: Option<String>,
    pub next: Option<usize>,
    pub fd_at_loss: Vec<(u64, usize)>,
    pub pipes: Vec<Pipe>,
    pub pager: PagerState,
}

static mut W: *mut World = std::ptr::null_mut();

pub fn set_world(w: Box<World>) {
    unsafe { W = Box::into_raw(w) }
}

/// Everything runs on one thread and the kernel is never re-entered, so a
/// plain global is enough.
#[inline]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}

pub fn have_world() -> bool {
    unsafe { !W.is_null() }
}

extern "C" {
    pub fn co_create(i: i32, f: extern "C" fn(), stack: *mut u8, n: usize);
    pub fn co_resume(i: i32);
    pub fn co_suspend(i: i32);
}

impl World {
    pub fn git_on(&self) -> bool {
        self.sc.repo.git.is_some()
    }

    pub fn violate(&mut self, prop: &str, kind: &str, msg: String) {
        if self.trace.is_some() {
            self.note(format!("!! {} {}: {}", prop, kind, msg));
        }
        if self.violations.len() < 40
            && !self.violations.iter().any(|v| v.prop == prop && v.kind == kind)
        {
            self.violations.push(Violation { prop: prop.into(), kind: kind.into(), msg });
        }
    }

    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_insert(0) += 1;
    }

    pub fn note(&mut self, s: String) {
        let step = self.step;
        if let Some(ref mut t) = self.trace {
            t.push(format!("{:>5} {}", step, s));
        }
    }

    pub fn runnable(&self, i: usize) -> bool {
        self.s[i].state == State::Ready
    }

    fn startable(&self, i: usize) -> bool {
        let s = &self.s[i];
        s.state == State::Waiting
            && (s.spec.prog != Prog::Pager || self.pager.by.is_some())
            && s.spec.epoch == self.epoch
            && s.spec.after.iter().all(|&a| matches!(self.s[a].state, State::Done(_)))
    }

    pub fn start_ready(&mut self) {
        for i in 0..self.s.len() {
            if self.startable(i) {
                self.start(i);
            }
        }
    }

    fn start(&mut self, i: usize) {
        self.s[i].state = State::Ready;
        self.s[i].start_step = self.step;
        if matches!(self.s[i].spec.prog, Prog::Actor | Prog::Pager) {
            return;
        }
        let f = crate::guests::entry(&self.s[i].spec.prog, i);
        const SZ: usize = 8 << 20;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SZ + 4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            ) as *mut u8;
            libc::mprotect(p as *mut libc::c_void, 4096, libc::PROT_NONE);
            self.s[i].mem_stack = p as usize;
            co_create(i as i32, f, p.add(4096), SZ);
        }
    }

    /// Which session runs next?  Called at yield points of `cur` (if it is
    /// still running) and when it has ended.
    pub fn pick(&mut self) -> Option<usize> {
        let n = self.s.len();
        let cur = self.cur;
        let mut cand: Vec<usize> = (0..n).filter(|&i| self.runnable(i)).collect();
        if cand.is_empty() {
            return None;
        }
        let unpaused: Vec<usize> =
            cand.iter().copied().filter(|&i| self.s[i].paused_until <= self.yields_total && !self.s[i].blocked).collect();
        if !unpaused.is_empty() {
            cand = unpaused;
        } else {
            // nobody else can move: the earliest pause ends now
            let unblocked: Vec<usize> = cand.iter().copied().filter(|&i| !self.s[i].blocked).collect();
            if !unblocked.is_empty() {
                cand = unblocked;
            }
            let m = cand.iter().copied().min_by_key(|&i| (self.s[i].paused_until, i)).unwrap();
            self.s[m].paused_until = 0;
            cand = vec![m];
        }
        let stay = cand.contains(&cur);
        let key = (cur as u32, self.s.get(cur).map(|s| s.yields).unwrap_or(0));
        let dflt = if stay { cur } else { cand[0] };
        let next = match self.sc.sched {
            Sched::Random { p, .. } => {
                if cand.len() == 1 {
                    cand[0]
                } else if stay && !self.sched_rng.chance(p as u64, 1000) {
                    cur
                } else {
                    *self.sched_rng.pick(&cand)
                }
            }
            Sched::Pct { .. } => {
                if stay && self.change_points.contains(&self.yields_total) {
                    let low = self.s.iter().map(|s| s.prio).min().unwrap_or(0);
                    self.s[cur].prio = low.saturating_sub(1);
                }
                *cand.iter().max_by_key(|&&i| (self.s[i].prio, std::cmp::Reverse(i))).unwrap()
            }
            Sched::Explicit { .. } => match self.explicit.get(&key) {
                Some(&t) if cand.contains(&(t as usize)) => t as usize,
                _ => dflt,
            },
        };
        if next != dflt {
            self.switches.push((key.0, key.1, next as u32));
        }
        if next != cur {
            self.inter = fnv(self.inter, &[next as u8, 0xff]);
        }
        Some(next)
    }

    /// A point at which another session may run.
    pub fn yield_point(&mut self) {
        let cur = self.cur;
        self.s[cur].yields += 1;
        self.yields_total += 1;
        self.start_ready();
        if let Some(n) = self.pick() {
            if n != cur {
                self.next = Some(n);
                unsafe { co_suspend(cur as i32) };
            }
        }
    }

    /// Ends session `i`; what it held open is released, nothing else happens.
    pub fn end_session(&mut self, i: usize, e: End) {
        let live: Vec<usize> = self.s[i].fds.iter().filter_map(|x| *x).collect();
        self.s[i].fds.clear();
        self.s[i].dirs.clear();
        for f in live {
            self.release_file(f);
        }
        self.dirlocks.retain(|_, v| v.0 != i);
        for s in self.s.iter_mut() {
            s.blocked = false;
        }
        self.note(format!("s{} ends: {:?}", i, e));
        self.hash = fnv(self.hash, format!("end{}{:?}", i, e).as_bytes());
        self.s[i].state = State::Done(e);
        self.s[i].end_step = self.step;
    }

    pub fn release_file(&mut self, f: usize) {
        self.files[f].refs -= 1;
        if self.files[f].refs == 0 {
            if let OfKind::File(i) | OfKind::Dir(i) = self.files[f].kind {
                self.fs.inodes[i].opens -= 1;
                self.fs.reap(i);
            }
            match self.files[f].kind {
                OfKind::PipeR(p) => self.pipes[p].readers -= 1,
                OfKind::PipeW(p) => self.pipes[p].writers -= 1,
                _ => return,
            }
            self.wake();
        }
    }

    pub fn wake(&mut self) {
        for s in self.s.iter_mut() {
            s.blocked = false;
        }
    }

    pub fn advance(&mut self, ns: u64) {
        self.wall += ns as i128;
        self.mono += ns as i128;
        self.simulated += ns as i128;
        self.fs.now = (self.wall.div_euclid(1_000_000_000)) as i64;
        crate::oracle::second(self);
    }

    /// Runs everything to the end.
    pub fn run(&mut self) {
        loop {
            if self.stop {
                return;
            }
            self.start_ready();
            let n = match self.next.take() {
                Some(n) => Some(n),
                None => self.pick(),
            };
            match n {
                Some(i) => {
                    self.cur = i;
                    if self.s[i].spec.prog == Prog::Actor {
                        crate::actor::act(self, i);
                        self.s[i].yields += 1;
                        self.yields_total += 1;
                    } else if self.s[i].spec.prog == Prog::Pager {
                        crate::actor::page(self, i);
                        self.s[i].yields += 1;
                        self.yields_total += 1;
                    } else {
                        crate::guests::set_args(self, i);
                        unsafe { co_resume(i as i32) };
                    }
                }
                None => {
                    let last = self.s.iter().map(|s| s.spec.epoch).max().unwrap_or(0);
                    if self.epoch >= last {
                        return;
                    }
                    self.epoch += 1;
                    if self.epoch >= last {
                        self.fs.quota = None;
                    }
                    self.fs.sync_all();
                    self.fs.checkpoint();
                }
            }
            if let Some((cut, data)) = self.power.take() {
                self.power_loss(cut, data);
            }
        }
    }

    fn power_loss(&mut self, cut: u32, data: u64) {
        self.step += 1;
        let n = self.s.len();
        for i in 0..n {
            let s = &self.s[i];
            if s.spec.epoch <= self.epoch && !matches!(s.state, State::Done(_)) {
                self.end_session(i, End::Power);
            }
        }
        let (lost, total) = self.fs.power_loss(cut as u64, data);
        self.note(format!("power loss: {} of {} namespace changes lost", lost, total));
        self.power_steps.push(self.step);
        self.fd_at_loss.push((self.step, lost));
        self.next = None;
        self.epoch += 1;
        if self.epoch >= self.s.iter().map(|s| s.spec.epoch).max().unwrap_or(0) {
            self.fs.quota = None;
        }
        crate::oracle::after_power_loss(self);
    }
}
