//! Runs many scenarios, each in a child forked from a process that has the
//! programs under test loaded; finds, shrinks and replays violations.

use crate::rng::*;
use crate::scenario::*;
use crate::world;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Viol {
    pub prop: String,
    pub kind: String,
    pub msg: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Out {
    pub v: Vec<Viol>,
    pub hash: u64,
    pub inter: u64,
    pub switches: Vec<(u32, u32, u32)>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub simulated_ns: i64,
    pub error: Option<String>,
    pub trace: Vec<String>,
    pub requests: u64,
    pub answers: u64,
    pub lin_ops: u64,
    pub lin_gaveup: u64,
    pub modes: u64,
    pub power: u64,
    pub kills: u64,
    pub preempt: u64,
    pub objects: u64,
}

pub enum Res {
    Done(Out),
    Hang,
    Crash(i32),
    Broken(String),
}

pub struct Shm {
    p: *mut u8,
    n: usize,
}

impl Shm {
    pub fn new(n: usize) -> Shm {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        } as *mut u8;
        assert!(p as isize != -1);
        Shm { p, n }
    }
    pub fn put(&self, b: &[u8]) -> bool {
        if b.len() + 8 > self.n {
            return false;
        }
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(8), b.len());
            (self.p as *mut u64).write_volatile(b.len() as u64 + 1);
        }
        true
    }
    pub fn clear(&self) {
        unsafe { (self.p as *mut u64).write_volatile(0) }
    }
    pub fn get(&self) -> Option<&[u8]> {
        unsafe {
            let n = (self.p as *mut u64).read_volatile();
            if n == 0 {
                return None;
            }
            Some(std::slice::from_raw_parts(self.p.add(8), n as usize - 1))
        }
    }
    fn cell(&self, k: usize) -> &AtomicU64 {
        unsafe { &*(self.p.add(8 * k) as *const AtomicU64) }
    }
}

/// Simulates in this process.
pub fn simulate(sc: &Scenario, trace: bool) -> Out {
    world::set_world(crate::setup::build(sc, trace));
    let w = world::w();
    crate::setup::begin(w);
    w.run();
    crate::oracle::evaluate(w);
    let preempt = w.switches.len() as u64;
    Out {
        v: w.violations.iter().map(|v| Viol { prop: v.prop.clone(), kind: v.kind.clone(), msg: v.msg.clone() }).collect(),
        hash: w.hash,
        inter: w.inter,
        switches: w.switches.clone(),
        fired: w.fired.clone(),
        probes: w.probes.clone(),
        steps: w.step,
        simulated_ns: w.simulated.min(i64::MAX as i128) as i64,
        error: w.harness_error.clone(),
        trace: w.trace.take().unwrap_or_default(),
        requests: w.truth.requests,
        answers: w.truth.answers,
        lin_ops: w.truth.lin_ops,
        lin_gaveup: w.truth.lin_gaveup,
        modes: w.truth.checked_modes,
        power: w.power_steps.len() as u64,
        kills: w.s.iter().filter(|s| s.state == world::State::Done(world::End::Killed)).count() as u64,
        preempt,
        objects: w.truth.objs.len() as u64,
    }
}

pub fn run_child(sc: &Scenario, trace: bool, shm: &Shm) -> Res {
    shm.clear();
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let l = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            let o = simulate(sc, trace);
            let b = serde_json::to_vec(&o).unwrap_or_default();
            libc::_exit(if shm.put(&b) { 0 } else { 98 });
        }
        if pid < 0 {
            return Res::Broken("fork".into());
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGXCPU {
                return Res::Hang;
            }
            if s == libc::SIGSEGV || s == libc::SIGBUS || s == libc::SIGILL || s == libc::SIGFPE || s == libc::SIGABRT {
                return Res::Crash(s);
            }
            return Res::Broken(format!("child killed by signal {}", s));
        }
        let code = libc::WEXITSTATUS(st);
        if code != 0 {
            return Res::Broken(format!("child exits {}", code));
        }
        match shm.get().and_then(|b| serde_json::from_slice::<Out>(b).ok()) {
            Some(o) => Res::Done(o),
            None => Res::Broken("no result".into()),
        }
    }
}

/// All violations of a run, whatever its end.
fn violations(prop: &str, r: &Res) -> Vec<Viol> {
    match r {
        Res::Done(o) => o.v.iter().filter(|v| v.prop == prop).cloned().collect(),
        Res::Hang if matches!(prop, "C14" | "C15" | "C19" | "C20" | "C21" | "C22" | "C23") => {
            vec![Viol { prop: prop.into(), kind: "hang".into(), msg: "a session computes for 20 s without a system call".into() }]
        }
        Res::Crash(s) if matches!(prop, "C14" | "C19" | "C20" | "C21" | "C22" | "C23") => {
            vec![Viol { prop: prop.into(), kind: "crash".into(), msg: format!("a session dies of signal {}", s) }]
        }
        _ => vec![],
    }
}

pub struct Known {
    pub prop: String,
    pub kind: String,
    pub part: String,
    pub text: String,
}

pub fn known(path: &str, prop: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // known: property=C00 | kind | part of the message | description
        if let Some(r) = l.strip_prefix("known: property=") {
            let f: Vec<&str> = r.splitn(4, " | ").collect();
            if f.len() == 4 && f[0].trim() == prop {
                v.push(Known { prop: prop.into(), kind: f[1].into(), part: f[2].into(), text: f[3].into() });
            }
        }
    }
    v
}

fn listed(k: &[Known], v: &Viol) -> bool {
    k.iter().any(|k| k.prop == v.prop && k.kind == v.kind && v.msg.contains(&k.part))
}

pub struct Cfg {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub cap_s: f64,
    pub workers: usize,
    pub verif: String,
}

#[derive(Serialize, Deserialize, Default, Clone)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    profiles: BTreeMap<String, u64>,
    steps: u64,
    simulated: f64,
    requests: u64,
    answers: u64,
    lin_ops: u64,
    lin_gaveup: u64,
    modes: u64,
    power: u64,
    kills: u64,
    preempt: u64,
    twice: u64,
    known_hits: u64,
    faulted: u64,
    found: Option<(u64, Vec<Viol>)>,
    broken: Option<String>,
    samples: Vec<serde_json::Value>,
}

pub fn seed_of(prop: &str, seed: u64, k: u64) -> u64 {
    mix(mix(seed, fnv(0xcbf29ce484222325, prop.as_bytes())), k) >> 11
}

fn sample(sc: &Scenario, o: &Out) -> serde_json::Value {
    let ops = |s: &Sess| -> Vec<String> {
        s.ops
            .iter()
            .map(|x| {
                let t = serde_json::to_string(x).unwrap_or_default();
                t.chars().take(160).collect()
            })
            .collect()
    };
    serde_json::json!({
        "seed": sc.seed, "profile": sc.profile, "shared": sc.repo.shared, "sched": sc.sched,
        "sessions": sc.sessions.iter().map(|s| serde_json::json!({
            "prog": s.prog, "args": s.args, "user": s.user, "epoch": s.epoch, "client": s.client, "chunks": s.chunks,
            "out_max": s.out_max, "cut": s.cut, "ops": ops(s)})).collect::<Vec<_>>(),
        "faults": sc.faults, "fired": o.fired, "steps": o.steps, "preemptions": o.preempt,
        "requests": o.requests, "answers": o.answers, "log_hash": format!("{:016x}", o.hash),
    })
}

fn worker(c: &Cfg, known: &[Known], me: usize, start: Instant, ctl: &Shm, shm: &Shm) -> Stats {
    let mut st = Stats::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut k = me as u64;
    while k < c.runs {
        if start.elapsed().as_secs_f64() > c.cap_s || ctl.cell(0).load(Ordering::Relaxed) < k {
            break;
        }
        let sc = crate::gen::scenario(&c.prop, seed_of(&c.prop, c.seed, k));
        let r = run_child(&sc, false, shm);
        st.runs += 1;
        *st.profiles.entry(sc.profile.clone()).or_insert(0) += 1;
        let vs = violations(&c.prop, &r);
        match &r {
            Res::Done(o) => {
                if let Some(e) = &o.error {
                    st.broken = Some(format!("run {} (seed {}): {}", k, sc.seed, e));
                    break;
                }
                if k < 96 {
                    if let Res::Done(p) = run_child(&sc, true, shm) {
                        st.twice += 1;
                        if p.hash != o.hash || p.v.len() != o.v.len() {
                            st.broken = Some(format!("run {} (seed {}) is not repeatable", k, sc.seed));
                            break;
                        }
                    }
                }
                for (a, b) in &o.fired {
                    *st.fired.entry(a.clone()).or_insert(0) += b;
                }
                for (a, b) in &o.probes {
                    *st.probes.entry(a.clone()).or_insert(0) += b;
                }
                st.steps += o.steps;
                st.simulated += o.simulated_ns as f64 / 1e9;
                st.requests += o.requests;
                st.answers += o.answers;
                st.lin_ops += o.lin_ops;
                st.lin_gaveup += o.lin_gaveup;
                st.modes += o.modes;
                st.power += o.power;
                st.kills += o.kills;
                st.preempt += o.preempt;
                if !o.fired.is_empty() {
                    st.faulted += 1;
                }
                if (o.answers > 0 || matches!(c.prop.as_str(), "C19" | "C20" | "C21" | "C22" | "C23"))
                    && (!o.fired.is_empty() || o.preempt > 0 || o.requests > o.answers || sc.profile == "hostile")
                {
                    st.nontrivial += 1;
                    seen.insert(o.inter);
                    if st.samples.len() < 1 && k > 3 {
                        st.samples.push(sample(&sc, o));
                    }
                }
            }
            Res::Broken(e) => {
                st.broken = Some(format!("run {} (seed {}): {}", k, sc.seed, e));
                break;
            }
            Res::Crash(s) if vs.is_empty() => {
                // reported by the check of C14; nothing more can be said here
                *st.probes.entry(format!("crash {}", s)).or_insert(0) += 1;
            }
            _ => (),
        }
        let news: Vec<Viol> = vs.iter().filter(|v| !listed(known, v)).cloned().collect();
        st.known_hits += (vs.len() - news.len()) as u64;
        if !news.is_empty() {
            ctl.cell(0).fetch_min(k, Ordering::Relaxed);
            st.found = Some((k, news));
            break;
        }
        k += c.workers as u64;
    }
    st.hashes = seen.into_iter().collect();
    st
}

fn search(c: &Cfg, known: &[Known], start: Instant) -> Vec<Stats> {
    let ctl = Shm::new(4096);
    ctl.cell(0).store(u64::MAX, Ordering::Relaxed);
    let mut pids = vec![];
    let mut outs = vec![];
    for me in 0..c.workers {
        let out = Shm::new(256 << 20);
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let shm = Shm::new(32 << 20);
                let s = worker(c, known, me, start, &ctl, &shm);
                out.put(&serde_json::to_vec(&s).unwrap());
                libc::_exit(0);
            }
            pids.push(pid);
        }
        outs.push(out);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
    }
    outs.iter()
        .map(|o| {
            o.get().and_then(|b| serde_json::from_slice(b).ok()).unwrap_or_else(|| Stats {
                broken: Some("a worker ended without a result".into()),
                ..Default::default()
            })
        })
        .collect()
}

// ------------------------------------------------------------------ shrinking

struct Shrink<'a> {
    prop: &'a str,
    kind: String,
    known: &'a [Known],
    shm: &'a Shm,
    until: Instant,
    budget: f64,
    tries: u64,
}

impl<'a> Shrink<'a> {
    fn spent(&self) -> bool {
        self.until.elapsed().as_secs_f64() > self.budget
    }
    fn fails(&mut self, sc: &Scenario) -> Option<Out> {
        self.tries += 1;
        let r = run_child(sc, false, self.shm);
        let hit = violations(self.prop, &r).iter().any(|v| v.kind == self.kind && !listed(self.known, v));
        if !hit {
            return None;
        }
        match r {
            Res::Done(o) => Some(o),
            _ => Some(Out::default()),
        }
    }
    /// tries the candidate with its own schedule, then with a few others
    fn attempt(&mut self, sc: &Scenario) -> Option<Scenario> {
        if self.spent() {
            return None;
        }
        if self.fails(sc).is_some() {
            return Some(sc.clone());
        }
        if sc.sessions.len() > 1 {
            for k in 0..4u64 {
                if self.spent() {
                    return None;
                }
                let mut s = sc.clone();
                s.sched = Sched::Random { seed: k, p: 250 };
                if self.fails(&s).is_some() {
                    return Some(s);
                }
            }
        }
        None
    }
    /// removes elements of a list, halves first
    fn list<T: Clone>(&mut self, sc: &mut Scenario, get: impl Fn(&mut Scenario) -> &mut Vec<T>) {
        let mut chunk = (get(sc).len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < get(sc).len() {
                if self.spent() {
                    return;
                }
                let mut c = sc.clone();
                let l = get(&mut c);
                let e = (i + chunk).min(l.len());
                l.drain(i..e);
                match self.attempt(&c) {
                    Some(c) => *sc = c,
                    None => i += chunk,
                }
            }
            if chunk == 1 {
                return;
            }
            chunk /= 2;
        }
    }
}

fn drop_session(sc: &Scenario, k: usize) -> Scenario {
    let mut c = sc.clone();
    c.sessions.remove(k);
    for s in c.sessions.iter_mut() {
        let mut a: Vec<usize> = s.after.iter().filter(|&&x| x != k).copied().collect();
        if s.after.contains(&k) {
            a.extend(sc.sessions[k].after.iter().copied());
        }
        for x in a.iter_mut() {
            if *x > k {
                *x -= 1;
            }
        }
        a.sort();
        a.dedup();
        s.after = a;
    }
    c.faults.retain(|f| f.sess != k);
    for f in c.faults.iter_mut() {
        if f.sess > k {
            f.sess -= 1;
        }
    }
    if let Sched::Explicit { switches } = &mut c.sched {
        switches.retain(|s| s.0 as usize != k && s.2 as usize != k);
        for s in switches.iter_mut() {
            if s.0 as usize > k {
                s.0 -= 1;
            }
            if s.2 as usize > k {
                s.2 -= 1;
            }
        }
    }
    c
}

/// The scenario without the commits from `lo` to `hi`, whose children get their
/// parents.
fn drop_commits(sc: &Scenario, lo: u32, hi: u32) -> Scenario {
    let mut c = sc.clone();
    let new = |x: u32| match x {
        x if x < lo || x >= 1000 => Some(x),
        x if x < hi => None,
        x => Some(x - (hi - lo)),
    };
    if let Some(g) = c.repo.git.as_mut() {
        let old = g.commits.clone();
        g.commits.clear();
        for (k, o) in old.iter().enumerate() {
            if new(k as u32).is_none() {
                continue;
            }
            let mut o = o.clone();
            let mut ps: Vec<u32> = vec![];
            let mut todo: Vec<u32> = o.parents.iter().rev().copied().collect();
            while let Some(p) = todo.pop() {
                match new(p) {
                    Some(p) if !ps.contains(&p) => ps.push(p),
                    Some(_) => (),
                    None => todo.extend(old[p as usize].parents.iter().rev()),
                }
            }
            o.parents = ps;
            g.commits.push(o);
        }
        // a tag of a commit that is gone names the first one
        for t in g.tags.iter_mut() {
            *t = new(*t).unwrap_or(0);
        }
        let keep = |v: Vec<(String, u32)>| v.into_iter().filter_map(|(n, x)| Some((n, new(x)?))).collect();
        g.refs = keep(std::mem::take(&mut g.refs));
        g.packed_refs = keep(std::mem::take(&mut g.packed_refs));
        g.pack = g.pack.iter().filter_map(|&x| new(x)).collect();
        let named = |s: &str| match s.parse::<u32>() {
            Ok(x) => new(x).map(|x| x.to_string()),
            Err(_) => Some(s.to_string()),
        };
        g.head = named(&g.head).unwrap_or_else(|| "refs/heads/main".into());
        g.reflog = g
            .reflog
            .iter()
            .filter_map(|s| match s.strip_prefix('#') {
                Some(n) => named(n).map(|n| format!("#{}", n)),
                None => Some(s.clone()),
            })
            .collect();
    }
    for s in c.sessions.iter_mut() {
        for a in s.actions.iter_mut() {
            match a {
                Action::SetRef { to: x, .. } | Action::Checkout { commit: x, .. } => *x = new(*x).unwrap_or(0),
                Action::RemoveObject(x) | Action::SpoilObject(x, _) => match new(*x) {
                    Some(n) => *x = n,
                    None => *a = Action::Idle,
                },
                _ => (),
            }
        }
    }
    c
}

/// Makes the simulated git repository smaller.
fn shrink_git(sh: &mut Shrink, sc: &mut Scenario) {
    if sc.repo.git.is_none() {
        return;
    }
    fn g(s: &mut Scenario) -> &mut GitRepo {
        s.repo.git.as_mut().unwrap()
    }
    sh.list(sc, |s| &mut g(s).refs);
    sh.list(sc, |s| &mut g(s).packed_refs);
    sh.list(sc, |s| &mut g(s).symrefs);
    sh.list(sc, |s| &mut g(s).broken);
    sh.list(sc, |s| &mut g(s).reflog);
    let mut chunk = (g(sc).commits.len() as u32 / 2).max(1);
    loop {
        let mut hi = g(sc).commits.len() as u32;
        while hi > 0 && g(sc).commits.len() > 1 && !sh.spent() {
            let lo = hi.saturating_sub(chunk);
            if hi - lo < g(sc).commits.len() as u32 {
                if let Some(c) = sh.attempt(&drop_commits(sc, lo, hi)) {
                    *sc = c;
                }
            }
            hi = lo;
        }
        if chunk == 1 {
            break;
        }
        chunk /= 2;
    }
    sh.list(sc, |s| &mut g(s).pack);
    let mut easy: Vec<Box<dyn Fn(&mut GitRepo)>> = vec![
        Box::new(|g| g.subdir = false),
        Box::new(|g| g.worktree = false),
        Box::new(|g| g.packs = 0),
        Box::new(|g| g.borrows = false),
        Box::new(|g| g.show = 0),
        Box::new(|g| {
            if !g.refs.iter().chain(g.packed_refs.iter()).any(|r| r.1 >= 1000 && r.1 < crate::scenario::MISSING) {
                g.tags.clear();
            }
        }),
    ];
    for k in 0..g(sc).commits.len() {
        easy.push(Box::new(move |g| g.commits[k].zones = (0, 0)));
        easy.push(Box::new(move |g| g.commits[k].names = (0, 0)));
        easy.push(Box::new(move |g| g.commits[k].atime = g.commits[k].ctime));
        easy.push(Box::new(move |g| g.commits[k].msg = String::new()));
    }
    for f in easy {
        let mut c = sc.clone();
        f(g(&mut c));
        if c != *sc {
            if let Some(c) = sh.attempt(&c) {
                *sc = c;
            }
        }
    }
}

fn size(sc: &Scenario) -> usize {
    serde_json::to_string(sc).map(|s| s.len()).unwrap_or(0)
}

fn shrink(sh: &mut Shrink, sc0: &Scenario) -> Scenario {
    let mut sc = sc0.clone();
    for _round in 0..4 {
        let before = size(&sc);
        let mut k = sc.sessions.len();
        while k > 0 {
            k -= 1;
            if sc.sessions.len() > 1 {
                if let Some(c) = sh.attempt(&drop_session(&sc, k)) {
                    sc = c;
                }
            }
        }
        sh.list(&mut sc, |s| &mut s.faults);
        for i in 0..sc.sessions.len() {
            sh.list(&mut sc, |s| &mut s.sessions[i].ops);
            sh.list(&mut sc, |s| &mut s.sessions[i].actions);
        }
        sh.list(&mut sc, |s| &mut s.repo.preload);
        sh.list(&mut sc, |s| &mut s.repo.damage);
        shrink_git(sh, &mut sc);
        let mut easy: Vec<Box<dyn Fn(&mut Scenario)>> = vec![
            Box::new(|s| s.repo.decoys = false),
            Box::new(|s| s.repo.quota = None),
            Box::new(|s| s.repo.think = 0),
            Box::new(|s| s.repo.tick = 1000),
            Box::new(|s| s.repo.shared = None),
            Box::new(|s| s.repo.shared_at = 0),
            Box::new(|s| s.repo.dtype_unknown = false),
        ];
        for i in 0..sc.sessions.len() {
            easy.push(Box::new(move |s| s.sessions[i].chunks = Chunks::Whole));
            easy.push(Box::new(move |s| s.sessions[i].out_max = 0));
            easy.push(Box::new(move |s| s.sessions[i].client = Client::Lockstep));
            easy.push(Box::new(move |s| s.sessions[i].cut = None));
            easy.push(Box::new(move |s| s.sessions[i].flip = None));
        }
        for f in easy {
            let mut c = sc.clone();
            f(&mut c);
            if c != sc {
                if let Some(c) = sh.attempt(&c) {
                    sc = c;
                }
            }
        }
        // the schedule itself, as explicit switches
        let mut tried = sc.clone();
        if !matches!(sc.sched, Sched::Explicit { .. }) {
            if let Some(o) = sh.fails(&sc) {
                tried.sched = Sched::Explicit { switches: o.switches };
            }
        }
        if matches!(tried.sched, Sched::Explicit { .. }) && sh.fails(&tried).is_some() {
            let mut plain = tried.clone();
            plain.sched = Sched::Explicit { switches: vec![] };
            if sh.fails(&plain).is_some() {
                tried = plain;
            } else {
                // only removals that keep this very schedule
                let mut chunk = 64;
                while chunk > 0 && !sh.spent() {
                    let mut i = 0;
                    loop {
                        let mut c = tried.clone();
                        if let Sched::Explicit { switches } = &mut c.sched {
                            if i >= switches.len() {
                                break;
                            }
                            let e = (i + chunk).min(switches.len());
                            switches.drain(i..e);
                        }
                        if sh.spent() {
                            break;
                        }
                        if sh.fails(&c).is_some() {
                            tried = c;
                        } else {
                            i += chunk;
                        }
                    }
                    chunk /= 2;
                }
            }
            sc = tried;
        }
        if sh.spent() || size(&sc) >= before {
            break;
        }
    }
    sc
}

fn report(c: &Cfg, known: &[Known], k: u64, vs: &[Viol]) -> Result<String, String> {
    let shm = Shm::new(64 << 20);
    let sc = crate::gen::scenario(&c.prop, seed_of(&c.prop, c.seed, k));
    let mut sh = Shrink {
        prop: &c.prop,
        kind: vs[0].kind.clone(),
        known,
        shm: &shm,
        until: Instant::now(),
        budget: if c.tier == "quick" { 25.0 } else { 90.0 },
        tries: 0,
    };
    let hang = vs[0].kind == "hang";
    let small = if hang { sc.clone() } else { shrink(&mut sh, &sc) };
    let (r, fin) = {
        let r = run_child(&small, true, &shm);
        if violations(&c.prop, &r).iter().any(|v| v.kind == vs[0].kind) {
            (r, small)
        } else {
            (run_child(&sc, true, &shm), sc.clone())
        }
    };
    let found = violations(&c.prop, &r).into_iter().find(|v| v.kind == vs[0].kind).unwrap_or(vs[0].clone());
    let (hash, trace) = match &r {
        Res::Done(o) => (o.hash, o.trace.clone()),
        _ => (0, vec![]),
    };
    let n = trace.len();
    let rp = Replay {
        property: c.prop.clone(),
        kind: found.kind.clone(),
        message: found.msg.clone(),
        log_hash: format!("{:016x}", hash),
        original_seed: sc.seed,
        trace: if n > 3000 { trace[n - 3000..].to_vec() } else { trace },
        scenario: fin.clone(),
    };
    let dir = format!("{}/replays", c.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, c.prop, sc.seed);
    std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap()).map_err(|e| format!("{}: {}", path, e))?;
    println!("run {} (seed {}): {} {}: {}", k, sc.seed, c.prop, found.kind, found.msg);
    println!(
        "minimised in {} runs to {} sessions, {} requests, {} faults, {}",
        sh.tries,
        fin.sessions.len(),
        fin.sessions.iter().map(|s| s.ops.len()).sum::<usize>(),
        fin.faults.len(),
        match &fin.sched {
            Sched::Explicit { switches } => format!("{} forced switches", switches.len()),
            x => format!("{:?}", x),
        }
    );
    Ok(path)
}

pub fn check(c: &Cfg, meta: &serde_json::Value) -> i32 {
    let start = Instant::now();
    let kn = known(&format!("{}/known-findings.txt", c.verif), &c.prop);
    println!("property {} tier {} seed {} workers {}", c.prop, c.tier, c.seed, c.workers);
    let parts = search(c, &kn, start);
    let searched = start.elapsed().as_secs_f64();
    let mut t = Stats::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut found: Option<(u64, Vec<Viol>)> = None;
    for p in &parts {
        t.runs += p.runs;
        t.nontrivial += p.nontrivial;
        t.steps += p.steps;
        t.simulated += p.simulated;
        t.requests += p.requests;
        t.answers += p.answers;
        t.lin_ops += p.lin_ops;
        t.lin_gaveup += p.lin_gaveup;
        t.modes += p.modes;
        t.power += p.power;
        t.kills += p.kills;
        t.preempt += p.preempt;
        t.twice += p.twice;
        t.known_hits += p.known_hits;
        t.faulted += p.faulted;
        hashes.extend(p.hashes.iter().copied());
        for (a, b) in &p.fired {
            *t.fired.entry(a.clone()).or_insert(0) += b;
        }
        for (a, b) in &p.probes {
            *t.probes.entry(a.clone()).or_insert(0) += b;
        }
        for (a, b) in &p.profiles {
            *t.profiles.entry(a.clone()).or_insert(0) += b;
        }
        if t.samples.len() < 3 {
            t.samples.extend(p.samples.iter().cloned());
        }
        if let Some((k, v)) = &p.found {
            if found.as_ref().map(|f| *k < f.0).unwrap_or(true) {
                found = Some((*k, v.clone()));
            }
        }
        if p.broken.is_some() {
            t.broken = p.broken.clone();
        }
    }
    for k in &kn {
        println!("KNOWN-FINDING: property={} {}", c.prop, k.text);
    }
    let mut code = 0;
    let mut line = String::new();
    if let Some((k, vs)) = &found {
        match report(c, &kn, *k, vs) {
            Ok(path) => {
                // the file has to show it again in a fresh process
                let st = std::process::Command::new("/proc/self/exe").args(["replay", &path]).stdout(std::process::Stdio::null()).status();
                let again = matches!(st, Ok(s) if s.code() == Some(1));
                println!("fresh-process replay: {}", if again { "reproduced" } else { "NOT reproduced" });
                line = format!("VIOLATION property={} replay={}", c.prop, path);
                code = 1;
            }
            Err(e) => {
                eprintln!("{}", e);
                code = 3;
            }
        }
    } else if let Some(b) = &t.broken {
        eprintln!("the simulator is broken: {}", b);
        code = 3;
    }
    let hours = searched / 3600.0;
    let ev = serde_json::json!({
        "property": c.prop,
        "tier": c.tier,
        "seed": c.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": "one evaluation = one simulated run of a generated scenario (sessions, requests, schedule, fault list, all from one seed); non-trivial = at least one request was answered (or a tool ran) and a fault fired, or sessions preempted each other, or a request was cut off or hostile; distinct = different sequence of (session, kind of system call, errno) over the whole run",
            "nontrivial": t.nontrivial,
            "samples": t.samples,
            "runs_per_hour": (t.runs as f64 / hours).round(),
            "seeds_per_hour": (t.runs as f64 / hours).round(),
            "simulated_seconds": t.simulated.round(),
            "system_calls": t.steps,
            "runs_with_faults": t.faulted,
            "faults_fired": t.fired,
            "power_losses": t.power,
            "kills": t.kills,
            "preemptions": t.preempt,
            "requests": t.requests,
            "answers_checked": t.answers,
            "lock_events_linearized": t.lin_ops,
            "linearization_budget_exceeded": t.lin_gaveup,
            "modes_checked": t.modes,
            "profiles": t.profiles,
            "probes": t.probes,
            "runs_executed_twice_identical": t.twice,
            "known_finding_hits": t.known_hits,
            "workers": c.workers,
            "real": meta["real"],
            "stub": meta["stub"],
        },
        "assumptions": meta["assumptions"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = format!("{}/evidence", c.verif);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, c.prop), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("evidence: {}", e);
        code = 3;
    }
    println!(
        "{} runs ({} distinct non-trivial), {} requests, {} faults in {:.1} s",
        t.runs,
        hashes.len(),
        t.requests,
        t.fired.values().sum::<u64>(),
        searched
    );
    if !line.is_empty() {
        println!("{}", line);
    }
    code
}

pub fn replay(path: &str, verbose: bool) -> i32 {
    let rp: Replay = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => {
            eprintln!("{}: not a replay file", path);
            return 3;
        }
    };
    let shm = Shm::new(64 << 20);
    let r = run_child(&rp.scenario, true, &shm);
    let vs = violations(&rp.property, &r);
    if let Res::Done(o) = &r {
        if verbose {
            for t in &o.trace {
                println!("{}", t);
            }
        }
        println!("log hash {:016x}, recorded {}", o.hash, rp.log_hash);
    }
    match vs.iter().find(|v| v.kind == rp.kind) {
        Some(v) => {
            println!("{} {}: {}", v.prop, v.kind, v.msg);
            println!("VIOLATION property={} replay={}", rp.property, path);
            1
        }
        None => {
            println!("not reproduced; violations: {:?}", vs);
            0
        }
    }
}

/// For whoever works on the oracle.
pub fn survey(prop: &str, seed: u64, runs: u64) {
    let shm = Shm::new(64 << 20);
    let mut seen: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    for k in 0..runs {
        let s = seed_of(prop, seed, k);
        let sc = crate::gen::scenario(prop, s);
        let r = run_child(&sc, false, &shm);
        if let Res::Broken(e) = &r {
            seen.entry(format!("broken {}", e)).or_insert((0, s, String::new())).0 += 1;
        }
        if let Res::Done(Out { error: Some(e), .. }) = &r {
            seen.entry(format!("error {}", e)).or_insert((0, s, String::new())).0 += 1;
        }
        if let Res::Hang = &r {
            println!("hang: {}", s);
        }
        for v in violations(prop, &r) {
            seen.entry(v.kind.clone()).or_insert((0, s, v.msg)).0 += 1;
        }
    }
    for (k, v) in seen {
        println!("{:6} {} (seed {}): {}", v.0, k, v.1, v.2);
    }
}
