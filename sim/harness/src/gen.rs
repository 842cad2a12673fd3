//! Generates scenarios.  Each property draws from several profiles; a profile
//! decides what kind of sessions, requests, schedules and faults a run mixes.

use crate::client::{bytes, lock_id, oid_of, text};
use crate::rng::*;
use crate::scenario::*;

struct G {
    r: Rng,
}

const REF: &str = "refname=refs/heads/main";

fn utf8(s: &str) -> String {
    text(s.as_bytes())
}

pub fn profiles(prop: &str) -> &'static [(&'static str, u32)] {
    match prop {
        "C01" => &[("uploads", 18), ("power", 15), ("cuts", 6), ("flaws", 6), ("hostile", 3), ("perm", 3), ("outfail", 3), ("big", 1)],
        "C02" => &[("uploads", 15), ("power", 15), ("hostile", 3), ("outfail", 6), ("reads", 3), ("perm", 3), ("cuts", 3), ("big", 1)],
        "C03" => &[("uploads", 4), ("flaws", 5), ("cuts", 4), ("hostile", 1), ("outfail", 1), ("perm", 1)],
        "C04" => &[("reads", 32), ("uploads", 8), ("pace", 4), ("outfail", 4), ("damage", 4), ("big", 1)],
        "C05" => &[("reads", 4), ("queries", 6), ("uploads", 3), ("hostile", 1)],
        "C06" => &[("locks", 8), ("lockfaults", 4), ("lockpower", 4), ("owners", 3), ("oddpaths", 1), ("permlocks", 1), ("paging", 1)],
        "C07" => &[("locks", 5), ("lockfaults", 6), ("lockpower", 3), ("cuts", 1), ("paging", 1), ("owners", 1), ("oddpaths", 1), ("permlocks", 1)],
        "C08" => &[("paging", 8), ("locks", 3), ("lockfaults", 2), ("damage", 1), ("owners", 1), ("oddpaths", 1), ("lockpower", 1)],
        "C09" => &[("locks", 4), ("owners", 7), ("oddpaths", 3), ("paging", 1), ("lockfaults", 1), ("permlocks", 1)],
        "C10" => &[("hostile", 6), ("flaws", 4), ("pace", 2), ("sessfaults", 3), ("cuts", 1), ("outfail", 2), ("locks", 1), ("reads", 1), ("oddpaths", 1)],
        "C11" => &[("cuts", 8), ("frames", 5), ("hostile", 1)],
        "C12" => &[("modes", 8), ("hostile", 1), ("reads", 1), ("locks", 1)],
        "C13" => &[("escape", 8), ("hostile", 2), ("modes", 1), ("uploads", 1), ("locks", 1), ("permlocks", 1), ("oddpaths", 1)],
        "C14" => &[("hostile", 4), ("frames", 3), ("sessfaults", 5), ("damage", 4), ("locks", 2), ("cuts", 1), ("lockfaults", 2), ("uploads", 1), ("owners", 1), ("oddpaths", 1), ("paging", 1), ("perm", 1), ("escape", 1)],
        "C15" => &[("pace", 8), ("hostile", 2), ("flaws", 1), ("reads", 1), ("locks", 1), ("paging", 1)],
        "C16" => &[("outfail", 1)],
        "C17" => &[("perm", 8), ("permlocks", 4)],
        "C19" => &[("gitat", 1)],
        "C20" => &[("recent", 1)],
        "C23" => &[("pager", 1)],
        "C21" => &[("gitfind", 1)],
        "C24" => &[("long", 9), ("big", 1), ("hostile", 1), ("sessfaults", 1), ("locks", 1)],
        "C22" => &[("gitat", 6), ("gitfind", 2), ("recent", 3), ("pager", 1), ("sessfaults", 2), ("cuts", 1), ("frames", 1), ("outfail", 1), ("damage", 1)],
        _ => &[],
    }
}

pub fn scenario(prop: &str, seed: u64) -> Scenario {
    let mut g = G { r: Rng::new(seed) };
    let ps = profiles(prop);
    let w: Vec<u32> = ps.iter().map(|p| p.1).collect();
    let name = ps[g.r.weighted(&w)].0;
    build(name, seed, g)
}

fn build(name: &str, seed: u64, mut g: G) -> Scenario {
    let mut sc = Scenario {
        profile: name.into(),
        seed,
        repo: g.repo(),
        sessions: vec![],
        faults: vec![],
        sched: Sched::Random { seed: 0, p: 0 },
        step_limit: 300_000,
    };
    match name {
        "uploads" => g.uploads(&mut sc, 0),
        "power" => g.uploads(&mut sc, 1),
        "flaws" => g.uploads(&mut sc, 2),
        "queries" => g.uploads(&mut sc, 3),
        "reads" => g.reads(&mut sc),
        "cuts" => g.cuts(&mut sc, false),
        "frames" => g.cuts(&mut sc, true),
        "locks" => g.locks(&mut sc, 0),
        "lockfaults" => g.locks(&mut sc, 1),
        "lockpower" => g.locks(&mut sc, 2),
        "owners" => g.locks(&mut sc, 3),
        "oddpaths" => g.locks(&mut sc, 4),
        "permlocks" => g.locks(&mut sc, 5),
        "paging" => g.paging(&mut sc),
        "hostile" => g.hostile(&mut sc, 0),
        "escape" => g.hostile(&mut sc, 1),
        "modes" => g.hostile(&mut sc, 2),
        "sessfaults" => g.hostile(&mut sc, 3),
        "damage" => g.hostile(&mut sc, 4),
        "pace" => g.hostile(&mut sc, 5),
        "outfail" => g.hostile(&mut sc, 6),
        "perm" => g.perm(&mut sc),
        "long" => g.long(&mut sc),
        "big" => g.big(&mut sc),
        "gitat" => crate::gitrepo::gen_at(&mut g.r, &mut sc, false),
        "gitfind" => crate::gitrepo::gen_at(&mut g.r, &mut sc, true),
        "pager" => crate::gitrepo::gen_pager(&mut g.r, &mut sc),
        "recent" => crate::gitrepo::gen_recent(&mut g.r, &mut sc),
        _ => unreachable!(),
    }
    // nobody reads the messages
    if matches!(name, "sessfaults" | "frames" | "cuts" | "outfail" | "hostile" | "damage") {
        for k in 0..sc.sessions.len() {
            if sc.sessions[k].prog == Prog::Transfer && !sc.sessions[k].audit && g.r.chance(1, 12) {
                let e = *g.r.pick(&[libc::EIO, libc::ENOSPC, libc::EBADF]);
                sc.faults.push(Fault { sess: k, class: Class::Err, nth: 1, act: Act::Errno(e) });
            }
        }
    }
    // the same repository by another name
    for s in sc.sessions.iter_mut().filter(|s| s.prog == Prog::Transfer) {
        if !g.r.chance(1, 5) {
            continue;
        }
        let p = crate::setup::repo_path(&sc.repo);
        let mut v = vec![
            format!("{}/", p),
            p.replace("/git/", "//git/"),
            p.replace("/git/", "/git/../git/"),
            p.replace("/git/", "/./git/"),
            format!("../..{}", p),
            format!("{}/.", p),
        ];
        if !sc.repo.bare {
            v.push(format!("{}/.git", p));
            v.push(format!("{}/.git/", p));
        }
        v.push(p.replace("/git/", "/git/home/"));
        v.push("/srv/git/alias".into());
        s.args[0] = g.r.pick(&v).clone();
    }
    sc.sched = g.sched(sc.sessions.len());
    // large transfers are not cut into so many pieces that a run takes forever
    for s in sc.sessions.iter_mut() {
        let mut input = 0u64;
        let mut output = 0u64;
        for o in &s.ops {
            input += crate::client::encode(o).map(|b| b.len()).unwrap_or(100) as u64;
            if let Op::Get { pay } = o {
                output += pay.len as u64;
            }
        }
        let least = (input / 1500) as u32;
        s.chunks = match s.chunks.clone() {
            Chunks::Max(n) => Chunks::Max(n.max(least)),
            Chunks::Random { seed, max } => Chunks::Random { seed, max: max.max(4 * least) },
            c => c,
        };
        if s.out_max > 0 {
            s.out_max = s.out_max.max((output / 1500) as u32);
        }
    }
    sc
}

fn sess(repo: &Repo, op: &str, user: u32, umask: u32) -> Sess {
    Sess {
        prog: Prog::Transfer,
        args: vec![crate::setup::repo_path(repo).into(), op.into()],
        user,
        umask,
        client: Client::Lockstep,
        ops: vec![],
        chunks: Chunks::Whole,
        out_max: 0,
        cut: None,
        flip: None,
        after: vec![],
        epoch: 0,
        actions: vec![],
        audit: false,
    }
}

impl G {
    fn repo(&mut self) -> Repo {
        let r = &mut self.r;
        let shared = match r.weighted(&[50, 15, 6, 6, 5, 5, 5, 3, 3, 2]) {
            0 => None,
            1 => Some("group"),
            2 => Some("true"),
            3 => Some("0660"),
            4 => Some("all"),
            5 => Some("0640"),
            6 => Some("umask"),
            7 => Some("0600"),
            8 => Some("1"),
            _ => Some("0664"),
        };
        Repo {
            bare: r.chance(7, 10),
            shared: shared.map(|x| x.to_string()),
            shared_at: if r.chance(2, 3) { 0 } else { r.range(1, 6) as u8 },
            lfs_dirs: r.chance(1, 2),
            preload: vec![],
            damage: vec![],
            decoys: false,
            quota: None,
            start: r.range(1_000_000_000, 2_100_000_000) as i64,
            tick: *r.pick(&[1_000u64, 50_000, 3_000_000, 40_000_000, 400_000_000]),
            think: *r.pick(&[0u64, 0, 1_000_000, 700_000_000, 5_000_000_000]),
            dir_batch: *r.pick(&[1u32, 2, 7, 64]),
            dir_salt: r.next() >> 12,
            dtype_unknown: r.chance(1, 6),
            env: Self::env(r),
            git: None,
        }
    }

    fn env(r: &mut Rng) -> Vec<(String, String)> {
        let mut v = vec![];
        if r.chance(1, 3) {
            for n in ["USER", "LOGNAME", "USERNAME", "SUDO_USER"] {
                if r.chance(1, 2) {
                    v.push((n.to_string(), r.pick(&["alice", "bob", "root", "nobody", ""]).to_string()));
                }
            }
        }
        if r.chance(1, 4) {
            v.push(("TMPDIR".into(), r.pick(&["/tmp", "/mnt/scratch", "/nonexistent", "."]).to_string()));
        }
        if r.chance(1, 6) {
            v.push(("TZ".into(), r.pick(&["EST5", "XYZ-11:30", ":nowhere"]).to_string()));
        }
        v
    }

    fn sched(&mut self, n: usize) -> Sched {
        let seed = self.r.next() >> 12;
        if self.r.chance(3, 5) {
            Sched::Random { seed, p: *self.r.pick(&[30u32, 100, 250, 500]) }
        } else {
            Sched::Pct { seed, depth: self.r.range(1, 4) as u32, len: n as u32 * *self.r.pick(&[15u32, 40, 80]) }
        }
    }

    /// who may work in the repository
    fn user(&mut self, repo: &Repo) -> u32 {
        match repo.shared.as_deref() {
            Some("group") | Some("true") | Some("1") | Some("0660") | Some("all") | Some("0664") => {
                *self.r.pick(&[1u32, 2, 4, 5, 6, 0, 1, 2, 7, 8])
            }
            _ => 1,
        }
    }

    fn umask(&mut self) -> u32 {
        *self.r.pick(&[0o022u32, 0o022, 0o077, 0o002, 0o027, 0o007])
    }

    fn session(&mut self, repo: &Repo, op: &str) -> Sess {
        let u = self.user(repo);
        let m = self.umask();
        let mut s = sess(repo, op, u, m);
        s.client = match self.r.weighted(&[5, 2, 2]) {
            0 => Client::Lockstep,
            1 => Client::Pipelined(self.r.range(1, 4) as u32),
            _ => Client::Blast,
        };
        s.chunks = match self.r.weighted(&[4, 2, 3]) {
            0 => Chunks::Whole,
            1 => Chunks::Max(*self.r.pick(&[1u32, 3, 4, 5, 37, 1000, 4096])),
            _ => Chunks::Random { seed: self.r.next() >> 12, max: *self.r.pick(&[8u32, 100, 9000]) },
        };
        s.out_max = *self.r.pick(&[0u32, 0, 0, 1, 3, 50, 1000]);
        s
    }

    fn pay(&mut self) -> Pay {
        let kind = match self.r.weighted(&[5, 4, 3, 1, 1]) {
            0 => PayKind::Text,
            1 => PayKind::Binary,
            2 => PayKind::Requests,
            3 => PayKind::LockRecord,
            _ => PayKind::Zeros,
        };
        let len = match self.r.weighted(&[10, 30, 20, 6, 5, 5, 2]) {
            0 => self.r.below(3),
            1 => self.r.range(3, 400),
            2 => self.r.range(400, 9000),
            3 => self.r.range(8188, 8196),
            4 => self.r.range(65_512, 65_522),
            5 => self.r.range(9000, 70_000),
            _ => self.r.range(70_000, 260_000),
        } as u32;
        Pay { kind, tag: self.r.range(1, 9999) as u32, len }
    }

    fn pool(&mut self, lo: u64, hi: u64) -> Vec<Pay> {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| self.pay()).collect()
    }

    fn put(&mut self, p: &Pay) -> Op {
        Op::Put { pay: p.clone(), flaw: PutFlaw::None, pieces: if self.r.chance(1, 2) { 0 } else { self.r.range(1, 99) }, args: vec![] }
    }

    fn flawed(&mut self, p: &Pay, pool: &[Pay]) -> Op {
        let l = p.len as i64;
        let flaw = match self.r.weighted(&[4, 3, 4, 3, 2, 2, 2]) {
            0 => {
                let d = *self.r.pick(&[1i64, -1, 10, -10, 1000, -1000, -l, l, 1 << 8, 1 << 16, 1 << 32, i64::MAX / 4]);
                PutFlaw::SizeOff(if d == 0 { 1 } else { d })
            }
            1 => PutFlaw::OidOf(self.r.pick(pool).clone()),
            2 => PutFlaw::Corrupt(self.r.below(p.len.max(1) as u64) as u32),
            3 => {
                let o = oid_of(p);
                let t = match self.r.below(9) {
                    6..=8 => self.mangled(&o),
                    0 => o.to_uppercase(),
                    1 => o[..63].into(),
                    2 => format!("{}0", o),
                    3 => format!("../../{}", o),
                    4 => "0".repeat(64),
                    _ => format!("{}/{}", &o[..20], &o[21..]),
                };
                PutFlaw::OidText(t)
            }
            4 => PutFlaw::Args(
                match self.r.below(9) {
                    6 => vec![format!("size={}", (1u128 << 64) + l as u128)],
                    7 => vec![format!("size={}{}", l, self.r.pick(&["x", " ", ".0", "e0", "\0"]))],
                    8 => vec![format!("size={}{}", self.r.pick(&[" ", "-", "0o", "_"]), l)],
                    0 => vec![],
                    1 => vec!["size=".into()],
                    2 => vec!["size=-1".into()],
                    3 => vec![format!("size={}", l), format!("size={}", l)],
                    4 => vec!["size".into()],
                    _ => vec![format!("size=0x{:x}", l)],
                },
            ),
            5 => PutFlaw::NoDelim,
            _ => PutFlaw::InnerDelim(self.r.below(p.len.max(1) as u64) as u32),
        };
        Op::Put { pay: p.clone(), flaw, pieces: self.r.below(50), args: vec![] }
    }

    fn batch(&mut self, pool: &[Pay]) -> Op {
        let n = match self.r.below(240) {
            0..=3 => self.r.range(90, 130),
            4 => self.r.range(250, 260),
            5 => self.r.range(980, 1100),
            _ => self.r.below(6),
        } as usize;
        let mut objs = vec![];
        for _ in 0..n {
            let p = if self.r.chance(1, 5) { self.pay() } else { self.r.pick(pool).clone() };
            objs.push((p, *self.r.pick(&[0i64, 0, 0, 0, 0, 0, 1, -1, 1000, 1 << 31, 1 << 32, 5_000_000_000_000, i64::MAX / 2])));
        }
        let args = match self.r.below(8) {
            0 => vec!["hash-algo=sha256".into()],
            1 => vec!["transfer=ssh".into(), "refname=refs/heads/main".into()],
            2 => vec!["hash-algo=sha512".into()],
            _ => vec![],
        };
        Op::Batch { objs, args, extra: vec![] }
    }

    fn verify(&mut self, pool: &[Pay]) -> Op {
        Op::Verify { pay: self.r.pick(pool).clone(), size_off: *self.r.pick(&[0i64, 0, 0, 0, 1, -1, 100, 1 << 8, 1 << 16, 1 << 32, i64::MAX / 2]) }
    }

    fn nth(&mut self, max: u64) -> u32 {
        let m = 1 + self.r.below(max.max(1));
        self.r.range(1, m) as u32
    }

    /// faults of the store
    fn store_fault(&mut self, s: usize) -> Fault {
        let c = *self.r.pick(&[
            Class::Open, Class::Read, Class::Read, Class::Stat, Class::Stat, Class::ReadDir, Class::Create, Class::Create,
            Class::Mkdir, Class::Write, Class::Write, Class::Write, Class::Rename, Class::Rename, Class::Link, Class::Link,
            Class::Unlink, Class::Unlink, Class::Chmod, Class::Fsync,
        ]);
        let act = match c {
            Class::Open => self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::EMFILE), Act::Errno(libc::EACCES), Act::Eintr, Act::Errno(libc::ENOMEM)]),
            Class::Read => {
                let k = self.r.range(1, 20) as u32;
                self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::EIO), Act::Eintr, Act::Short(k)])
            }
            Class::Stat => self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::EACCES), Act::Errno(libc::ESTALE)]),
            Class::ReadDir => Act::Errno(libc::EIO),
            Class::Create => self.oneof(&[Act::Errno(libc::ENOSPC), Act::Errno(libc::EIO), Act::Errno(libc::EMFILE), Act::Eintr]),
            Class::Mkdir => self.oneof(&[Act::Errno(libc::ENOSPC), Act::Errno(libc::EIO), Act::Errno(libc::EROFS)]),
            Class::Write => {
                let k = self.r.range(1, 5000) as u32;
                self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::ENOSPC), Act::Errno(libc::EDQUOT), Act::Eintr, Act::Short(k)])
            }
            Class::Rename => self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::ENOSPC)]),
            Class::Link => self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::ENOSPC), Act::Errno(libc::EMLINK)]),
            Class::Unlink => self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::EACCES)]),
            Class::Chmod => self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::EPERM)]),
            _ => self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::ENOSPC), Act::Eintr]),
        };
        Fault { sess: s, class: c, nth: self.nth(12), act }
    }

    fn oneof(&mut self, v: &[Act]) -> Act {
        self.r.pick(v).clone()
    }

    fn any_class(&mut self) -> Class {
        *self.r.pick(&[
            Class::In, Class::Out, Class::Open, Class::Read, Class::Stat, Class::Create, Class::Mkdir, Class::Write,
            Class::Write, Class::Rename, Class::Rename, Class::Link, Class::Link, Class::Unlink, Class::Unlink,
            Class::Chmod, Class::Fsync, Class::Create,
        ])
    }

    fn kill(&mut self, s: usize) -> Fault {
        let class = self.any_class();
        Fault { sess: s, class, nth: self.nth(10), act: if self.r.chance(1, 2) { Act::KillBefore } else { Act::KillAfter } }
    }

    fn power(&mut self, s: usize) -> Fault {
        let class = *self.r.pick(&[
            Class::In, Class::Out, Class::Out, Class::Out, Class::Write, Class::Rename, Class::Link, Class::Unlink,
            Class::Chmod, Class::Fsync, Class::Create, Class::Stat,
        ]);
        let cut = match self.r.below(4) {
            0 => 0,
            1 => 1000,
            _ => self.r.below(1001) as u32,
        };
        let d = self.r.next() >> 12;
        let act = if self.r.chance(1, 3) { Act::PowerBefore(cut, d) } else { Act::PowerAfter(cut, d) };
        Fault { sess: s, class, nth: self.nth(16), act }
    }

    fn soft(&mut self, s: usize) -> Fault {
        let c = *self.r.pick(&[Class::In, Class::Out, Class::Read, Class::Write, Class::Open, Class::Create]);
        let act = match c {
            Class::Open | Class::Create => Act::Eintr,
            _ => {
                let k = self.r.range(1, 30) as u32;
                self.oneof(&[Act::Eintr, Act::Short(k), Act::Short(1)])
            }
        };
        Fault { sess: s, class: c, nth: self.nth(12), act }
    }

    fn pause(&mut self, s: usize) -> Fault {
        let class = self.any_class();
        Fault { sess: s, class, nth: self.nth(10), act: Act::Pause(*self.r.pick(&[5u32, 30, 200])) }
    }

    fn jump(&mut self, s: usize) -> Fault {
        let d = *self.r.pick(&[1i64, -1, 60, -60, 3600, -3600, 90_000, -90_000, 86_400 * 8, 86_400 * 32, -86_400 * 32, 86_400 * 400, -86_400 * 400, 86_400 * 2000, 40_000_000_000, -3_000_000_000]);
        let class = *self.r.pick(&[Class::In, Class::Create, Class::Link, Class::Write, Class::Out, Class::Clock, Class::Open]);
        Fault { sess: s, class, nth: self.nth(10), act: Act::Jump(d) }
    }

    fn in_fault(&mut self, s: usize) -> Fault {
        let e = *self.r.pick(&[libc::EIO, libc::ECONNRESET]);
        Fault { sess: s, class: Class::In, nth: self.nth(8), act: Act::Broken(e) }
    }

    fn out_fault(&mut self, s: usize) -> Fault {
        let e = *self.r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC, libc::ECONNRESET]);
        let act = if self.r.chance(2, 3) { Act::Broken(e) } else { Act::Errno(e) };
        Fault { sess: s, class: Class::Out, nth: self.nth(14), act }
    }

    /// appends the fault-free audit of the store
    fn audit_store(&mut self, sc: &mut Scenario, pool: &[Pay], epoch: u32) {
        let mut seen: Vec<String> = vec![];
        let mut objs = vec![];
        for p in pool {
            let o = oid_of(p);
            if !seen.contains(&o) {
                seen.push(o);
                objs.push((p.clone(), 0i64));
            }
        }
        let u = self.user(&sc.repo);
        let mut a = sess(&sc.repo, "download", u, 0o022);
        a.epoch = epoch;
        a.audit = true;
        a.ops.push(Op::Batch { objs: objs.clone(), args: vec![], extra: vec![] });
        for o in &objs {
            a.ops.push(Op::Get { pay: o.0.clone() });
        }
        a.ops.push(Op::Quit);
        let prev = sc.sessions.len();
        sc.sessions.push(a);
        let u = self.user(&sc.repo);
        let mut b = sess(&sc.repo, "upload", u, 0o022);
        b.epoch = epoch;
        b.audit = true;
        b.after = vec![prev];
        b.ops.push(Op::Batch { objs: objs.clone(), args: vec![], extra: vec![] });
        for o in &objs {
            b.ops.push(Op::Verify { pay: o.0.clone(), size_off: 0 });
        }
        // the store still takes uploads
        if self.r.chance(1, 2) {
            let p = objs[self.r.below(objs.len() as u64) as usize].0.clone();
            b.ops.push(self.put(&p));
            b.ops.push(Op::Verify { pay: p, size_off: 0 });
        }
        sc.sessions.push(b);
    }

    fn audit_locks(&mut self, sc: &mut Scenario, paths: &[String], epoch: u32) {
        let u = self.user(&sc.repo);
        let mut a = sess(&sc.repo, "upload", u, 0o022);
        a.epoch = epoch;
        a.audit = true;
        let limit = if self.r.chance(1, 2) { None } else { Some(self.r.range(1, 4)) };
        let limit = limit.map(|l| if paths.len() > 150 { 40 + l } else { l });
        a.ops.push(Op::List { limit, path: None, args: vec![] });
        let pages = match limit {
            Some(l) => paths.len() / l as usize + 2,
            None => paths.len() / 100 + 1,
        };
        for _ in 0..pages {
            a.ops.push(Op::ListNext { limit });
        }
        for p in paths {
            if paths.len() > 12 && !self.r.chance(8, paths.len() as u64) {
                continue;
            }
            a.ops.push(Op::List { limit: None, path: Some(p.clone()), args: vec![] });
            for _ in 0..2 {
                a.ops.push(self.lock(p));
                a.ops.push(Op::Unlock { id: IdSource::Path(p.clone()), args: vec![] });
            }
            a.ops.push(Op::List { limit: None, path: Some(p.clone()), args: vec![] });
        }
        a.ops.push(Op::List { limit: None, path: None, args: vec![] });
        a.ops.push(Op::Quit);
        let k = sc.sessions.iter().position(|s| s.audit && s.epoch == epoch);
        if k.is_some() {
            a.after = vec![sc.sessions.len() - 1];
        }
        sc.sessions.push(a);
    }

    fn lock(&mut self, p: &str) -> Op {
        Op::Lock { path: p.into(), args: vec![REF.into()] }
    }

    fn unlock(&mut self, p: &str) -> Op {
        Op::Unlock { id: IdSource::Path(p.into()), args: if self.r.chance(1, 4) { vec!["force=true".into()] } else { vec![] } }
    }

    fn list(&mut self, paths: &[String]) -> Op {
        let limit = match self.r.below(4) {
            0 => Some(self.r.range(1, 4)),
            1 => Some(*self.r.pick(&[99, 100, 101, 128, 255, 256, 1000, 65536, 1 << 32, u64::MAX])),
            _ => None,
        };
        let path = if self.r.chance(1, 3) { Some(self.r.pick(paths).clone()) } else { None };
        let mut args = vec![];
        if self.r.chance(1, 8) {
            let near = match (&path, self.r.below(2)) {
                (Some(p), 0) => p.clone(),
                _ => self.r.pick(paths).clone(),
            };
            let id = crate::client::lock_id(&crate::client::bytes(&near));
            args.push(match self.r.below(5) {
                0 => "cursor=0".into(),
                1 => format!("cursor={}", &id[..20]),
                2 => format!("cursor={}", "0".repeat(64)),
                _ => format!("cursor={}", id),
            });
        }
        Op::List { limit, path, args }
    }

    // ---------------------------------------------------------------- profiles

    /// kind 0: concurrent uploads under faults; 1: with power loss; 2: bad
    /// uploads; 3: batch and verify-object against uploads
    fn uploads(&mut self, sc: &mut Scenario, kind: u32) {
        let pool = self.pool(1, 4);
        if self.r.chance(1, 3) {
            sc.repo.preload = vec![self.r.pick(&pool).clone()];
        }
        let n = self.r.range(1, 4) as usize;
        for _ in 0..n {
            let mut s = self.session(&sc.repo, "upload");
            for _ in 0..self.r.range(1, 5) {
                let p = self.r.pick(&pool).clone();
                let flawed = match kind {
                    2 => 60,
                    3 => 5,
                    _ => 15,
                };
                let op = match self.r.weighted(&if kind == 3 { [20, 30, 30, 5] } else { [70, 10, 10, 3] }) {
                    0 if self.r.chance(flawed, 100) => self.flawed(&p, &pool),
                    0 => self.put(&p),
                    1 => self.verify(&pool),
                    2 => self.batch(&pool),
                    _ => self.lock("a.bin"),
                };
                s.ops.push(op);
            }
            if self.r.chance(1, 2) {
                s.ops.push(Op::Quit);
            }
            sc.sessions.push(s);
        }
        if self.r.chance(if kind == 3 { 2 } else { 1 }, 3) {
            let mut s = self.session(&sc.repo, "download");
            for _ in 0..self.r.range(1, 4) {
                let op = if self.r.chance(1, 2) { self.batch(&pool) } else { Op::Get { pay: self.r.pick(&pool).clone() } };
                s.ops.push(op);
            }
            sc.sessions.push(s);
        }
        let mut epoch = 1;
        match kind {
            1 => {
                let k = self.r.below(n as u64) as usize;
                let f = self.power(k);
                sc.faults.push(f);
                if self.r.chance(1, 3) {
                    let f = self.store_fault(k);
                    sc.faults.push(f);
                }
                if self.r.chance(1, 4) {
                    // work goes on after it
                    let mut s = self.session(&sc.repo, "upload");
                    for _ in 0..2 {
                        let p = self.r.pick(&pool).clone();
                        s.ops.push(self.put(&p));
                    }
                    s.epoch = 1;
                    sc.sessions.push(s);
                    epoch = 2;
                    if self.r.chance(1, 2) {
                        let i = sc.sessions.len() - 1;
                        let f = self.power(i);
                        sc.faults.push(f);
                    }
                }
            }
            _ => {
                for i in 0..n {
                    if self.r.chance(1, 3) {
                        let f = match self.r.weighted(&[8, 3, 2, 1, 1, 2]) {
                            0 => self.store_fault(i),
                            1 => self.kill(i),
                            2 => self.soft(i),
                            3 => self.in_fault(i),
                            4 => self.out_fault(i),
                            _ => self.pause(i),
                        };
                        sc.faults.push(f);
                        if self.r.chance(1, 3) {
                            let f = self.store_fault(i);
                            sc.faults.push(f);
                        }
                    }
                }
                if self.r.chance(1, 12) {
                    sc.repo.quota = Some(self.r.range(0, 20_000));
                }
                if kind == 2 && self.r.chance(1, 4) {
                    let i = self.r.below(n as u64) as usize;
                    sc.sessions[i].cut = Some((self.r.range(1, 600), 0));
                }
            }
        }
        self.audit_store(sc, &pool, epoch);
    }

    fn reads(&mut self, sc: &mut Scenario) {
        let pool = self.pool(2, 4);
        sc.repo.preload = pool.iter().filter(|_| self.r.chance(3, 4)).cloned().collect();
        if self.r.chance(1, 4) {
            // objects that are damaged until they are stored anew
            for p in pool.iter().take(2) {
                sc.repo.preload.retain(|q| oid_of(q) != oid_of(p));
                let content = ["", "garbage", "some longer text, which is not the object either"][self.r.below(3) as usize].to_string();
                sc.repo.damage.push(Damage::ObjectGarbage { pay: p.clone(), content });
            }
        }
        let n = self.r.range(1, 3) as usize;
        for i in 0..n {
            let mut s = self.session(&sc.repo, "download");
            for _ in 0..self.r.range(1, 5) {
                let op = if self.r.chance(1, 4) { self.batch(&pool) } else { Op::Get { pay: self.r.pick(&pool).clone() } };
                s.ops.push(op);
            }
            sc.sessions.push(s);
            for _ in 0..self.r.below(3) {
                let mut f = match self.r.below(6) {
                    0 => self.soft(i),
                    1 => self.pause(i),
                    2 => self.store_fault(i),
                    _ => {
                        let k = self.r.range(1, 9000) as u32;
                        let act = self.oneof(&[Act::Errno(libc::EIO), Act::Errno(libc::EIO), Act::Eintr, Act::Short(k), Act::Short(1)]);
                        Fault { sess: i, class: Class::Read, nth: self.nth(14), act }
                    }
                };
                if self.r.chance(1, 5) {
                    f = Fault { sess: i, class: *self.r.pick(&[Class::Stat, Class::Open]), nth: self.nth(6), act: Act::Errno(libc::EIO) };
                }
                sc.faults.push(f);
            }
        }
        if self.r.chance(2, 3) {
            let mut s = self.session(&sc.repo, "upload");
            for _ in 0..self.r.range(1, 4) {
                let p = self.r.pick(&pool).clone();
                let op = match self.r.below(5) {
                    0 => self.flawed(&p, &pool),
                    1 => self.verify(&pool),
                    _ => self.put(&p),
                };
                s.ops.push(op);
            }
            let i = sc.sessions.len();
            sc.sessions.push(s);
            if self.r.chance(1, 3) {
                let f = self.store_fault(i);
                sc.faults.push(f);
            }
        }
        self.audit_store(sc, &pool, 1);
    }

    /// the input of a session ends, breaks or loses its framing somewhere
    fn cuts(&mut self, sc: &mut Scenario, frames: bool) {
        let pool = self.pool(1, 3);
        let paths: Vec<String> = vec!["a.bin".into(), "b.bin".into()];
        // something to lose
        let mut s0 = self.session(&sc.repo, "upload");
        s0.ops = vec![self.lock(&paths[0])];
        let p = pool[0].clone();
        if self.r.chance(1, 2) {
            s0.ops.push(self.put(&p));
        }
        s0.client = Client::Lockstep;
        sc.sessions.push(s0);
        let op = if self.r.chance(7, 8) { "upload" } else { "download" };
        let mut s = self.session(&sc.repo, op);
        s.after = vec![0];
        let before = self.r.below(3);
        for _ in 0..before {
            let o = self.mixed(&pool, &paths);
            s.ops.push(o);
        }
        let n_before = s.ops.len();
        let last = self.mixed_write(&pool, &paths);
        s.ops.push(last);
        let len = self.approx(&s.ops);
        let lead = self.approx(&s.ops[..n_before].to_vec());
        if frames {
            match self.r.below(3) {
                0 => {
                    // one byte of the input differs
                    let at = if self.r.chance(3, 4) { lead + self.r.below((len - lead).max(1)) } else { self.r.below(len.max(1)) };
                    let with = *self.r.pick(b":g;@`/G~\0\xffzf0F12 ");
                    s.flip = Some((at, with));
                }
                1 => {
                    let h = self.bad_header();
                    let k = self.r.below(s.ops.len() as u64 + 1) as usize;
                    s.ops.insert(k, Op::Raw(Hex(h)));
                }
                _ => {
                    // a good request, unterminated, then bad framing
                    let mut b = vec![];
                    let o = self.mixed_write(&pool, &paths);
                    self.raw_of(&o, &mut b);
                    let cutat = b.len() - 4;
                    b.truncate(cutat);
                    b.extend(crate::client::unhex(&self.bad_header()));
                    let k = self.r.below(s.ops.len() as u64 + 1) as usize;
                    s.ops.insert(k, Op::Raw(Hex(crate::client::hex(&b))));
                }
            }
            // whatever follows must not be executed
            for _ in 0..self.r.below(3) {
                let o = self.mixed_write(&pool, &paths);
                s.ops.push(o);
            }
            s.client = if self.r.chance(1, 2) { Client::Blast } else { Client::Pipelined(9) };
        } else {
            let tail = len - lead;
            let at = match self.r.below(4) {
                0 => len.saturating_sub(self.r.range(1, 6)),
                1 => lead + self.r.below(tail.min(120).max(1)),
                2 => lead + self.r.below(tail.max(1)),
                _ => self.r.below(len.max(1)),
            };
            s.cut = Some((at, *self.r.pick(&[0, 0, 0, libc::EIO, libc::ECONNRESET])));
            if self.r.chance(1, 3) {
                s.client = Client::Blast;
            }
        }
        sc.sessions.push(s);
        if self.r.chance(1, 3) {
            let mut s = self.session(&sc.repo, "upload");
            for _ in 0..self.r.range(1, 3) {
                let o = self.mixed(&pool, &paths);
                s.ops.push(o);
            }
            sc.sessions.push(s);
        }
        if self.r.chance(1, 6) {
            let f = if self.r.chance(1, 2) { self.soft(1) } else { self.store_fault(1) };
            sc.faults.push(f);
        }
        self.audit_store(sc, &pool, 1);
        self.audit_locks(sc, &paths, 1);
    }

    /// sessions that are asked for a lot, again and again
    fn long(&mut self, sc: &mut Scenario) {
        let pool: Vec<Pay> = (0..self.r.range(2, 5)).map(|k| {
            let mut p = self.pay();
            p.len = p.len.min(if k == 0 { 70_000 } else { 9000 });
            p
        }).collect();
        let paths: Vec<String> = (0..self.r.range(2, 6)).map(|_| self.path()).filter(|p| p.len() < 6000).chain(["a.bin".to_string()]).collect();
        sc.repo.preload = pool.iter().filter(|_| self.r.chance(1, 2)).cloned().collect();
        let many = self.r.range(1, 2) as usize;
        for i in 0..many {
            let op = if self.r.chance(3, 4) { "upload" } else { "download" };
            let mut s = self.session(&sc.repo, op);
            s.out_max = *self.r.pick(&[0u32, 0, 50, 1000]);
            s.chunks = match s.chunks.clone() {
                Chunks::Max(n) => Chunks::Max(n.max(37)),
                c => c,
            };
            let n = self.r.range(40, if many == 1 { 260 } else { 110 });
            // one kind of request over and over, or anything
            let one = self.r.chance(1, 2);
            let kind = self.r.below(10);
            let path = self.r.pick(&paths).clone();
            let pay = self.r.pick(&pool).clone();
            for k in 0..n {
                let what = if one && self.r.chance(9, 10) { kind } else { self.r.below(10) };
                let o = match (what, op) {
                    (0, _) => Op::Get { pay: if one { pay.clone() } else { self.r.pick(&pool).clone() } },
                    (1, _) => Op::Get { pay: self.pay() },
                    (2, _) => self.batch(&pool),
                    (3, _) => self.list(&paths),
                    (4, _) => self.wrong(&pool, &paths),
                    (_, "download") => self.evil(&pool),
                    (5, _) => self.put(&pay),
                    (6, _) => self.flawed(&pay, &pool),
                    (7, _) if k % 2 == 0 || self.r.chance(1, 3) => self.lock(&path),
                    (7, _) => self.unlock(&path),
                    (8, _) => self.verify(&pool),
                    _ => self.mixed(&pool, &paths),
                };
                s.ops.push(o);
            }
            sc.sessions.push(s);
            // the same fault again and again, or many different ones
            if self.r.chance(1, 2) {
                let f = self.store_fault(i);
                for _ in 0..self.r.range(5, 60) {
                    let mut g = if self.r.chance(3, 4) { f.clone() } else { self.soft(i) };
                    g.nth = self.nth(400);
                    sc.faults.push(g);
                }
            }
        }
    }

    /// objects of several megabytes
    fn big(&mut self, sc: &mut Scenario) {
        let pool: Vec<Pay> = (0..self.r.range(1, 2)).map(|_| {
            let mut p = self.pay();
            p.len = self.r.range(1_300_000, 3_000_000) as u32;
            p
        }).collect();
        sc.repo.preload = pool.iter().filter(|_| self.r.chance(1, 2)).cloned().collect();
        for op in if self.r.chance(1, 2) { vec!["upload", "download"] } else { vec!["upload"] } {
            let mut s = self.session(&sc.repo, op);
            for _ in 0..self.r.range(1, 3) {
                let p = self.r.pick(&pool).clone();
                let o = match (op, self.r.below(6)) {
                    ("download", _) | (_, 0) => Op::Get { pay: p },
                    (_, 1) => self.flawed(&p, &pool),
                    (_, 2) => self.verify(&pool),
                    _ => self.put(&p),
                };
                s.ops.push(o);
            }
            let i = sc.sessions.len();
            sc.sessions.push(s);
            if self.r.chance(1, 3) {
                let f = self.store_fault(i);
                sc.faults.push(f);
            }
            if self.r.chance(1, 3) {
                let mut f = if self.r.chance(2, 3) { self.power(i) } else { self.kill(i) };
                if self.r.chance(1, 2) {
                    f.class = *self.r.pick(&[Class::Rename, Class::Out, Class::Fsync, Class::Chmod]);
                    f.nth = self.nth(4);
                }
                sc.faults.push(f);
            }
        }
        self.audit_store(sc, &pool, 1);
    }

    fn approx(&mut self, ops: &[Op]) -> u64 {
        let mut b = vec![];
        for o in ops {
            self.raw_of(o, &mut b);
        }
        b.len() as u64
    }

    /// Bytes of an operation that does not depend on the run.
    fn raw_of(&mut self, o: &Op, b: &mut Vec<u8>) {
        if let Some(x) = crate::client::encode(o) {
            b.extend(x);
        }
    }

    fn bad_header(&mut self) -> String {
        let t: &[u8] = match self.r.below(14) {
            0 => b"zzzz",
            1 => b"0002",
            2 => b"0003",
            3 => b"fff1abc",
            4 => b"ffff",
            5 => b"00:5a",
            6 => b"000g",
            7 => b"000Aabcdef",
            8 => b"-004",
            9 => b"+00a",
            10 => b"0x09lock\n",
            11 => b"::::",
            12 => b"g000",
            _ => b"GET / HTTP/1.0\r\n\r\n",
        };
        crate::client::hex(t)
    }

    /// any valid request of an upload session
    fn mixed(&mut self, pool: &[Pay], paths: &[String]) -> Op {
        let p = self.r.pick(pool).clone();
        let path = self.r.pick(paths).clone();
        match self.r.weighted(&[4, 3, 3, 3, 2, 2, 2, 1]) {
            0 => self.put(&p),
            1 => self.lock(&path),
            2 => self.unlock(&path),
            3 => self.list(paths),
            4 => self.verify(pool),
            5 => self.batch(pool),
            6 => self.flawed(&p, pool),
            _ => Op::Version("1".into()),
        }
    }

    fn mixed_write(&mut self, pool: &[Pay], paths: &[String]) -> Op {
        let p = self.r.pick(pool).clone();
        let path = self.r.pick(paths).clone();
        match self.r.weighted(&[5, 4, 4]) {
            0 => self.put(&p),
            1 => self.lock(&path),
            _ => self.unlock(&path),
        }
    }

    fn path(&mut self) -> String {
        match self.r.below(12) {
            0 => "dir/sub/c.bin".into(),
            1 => "sp ace.bin".into(),
            2 => "a=b.bin".into(),
            3 => utf8("ü/é.bin"),
            4 => "\u{ff}\u{fe}raw".into(),
            5 => "v1:1500000000:x".into(),
            6 => "../up.bin".into(),
            7 => "/abs.bin".into(),
            8 => format!("long/{}", "x".repeat(*self.r.pick(&[200usize, 255, 1000, 5000, 59_990, 65_439, 65_440, 65_441, 65_505]))),
            9 => "colon:path".into(),
            10 => "x\u{1}y".into(),
            _ => " lead".into(),
        }
    }

    /// kind 0 plain, 1 faults and kills, 2 power, 3 owners and clocks, 4 odd
    /// paths, 5 shared repositories
    fn locks(&mut self, sc: &mut Scenario, kind: u32) {
        let mut paths: Vec<String> = vec!["a.bin".into(), "b.bin".into(), "c/d.bin".into()];
        let np = self.r.range(1, 3) as usize;
        paths.truncate(np);
        if kind == 4 {
            paths = (0..self.r.range(1, 3)).map(|_| self.path()).collect();
            if self.r.chance(1, 10) {
                paths.push("new\nline".into());
            }
        } else if self.r.chance(1, 8) {
            let p = self.path();
            paths.push(p);
        }
        if self.r.chance(1, 6) {
            let p = self.r.pick(&paths).clone();
            let p = self.alike(&p);
            if p.len() < 60_000 && (kind == 4 || !p.contains('\0')) {
                paths.push(p);
            }
        }
        paths.sort();
        paths.dedup();
        if kind == 3 || kind == 5 {
            sc.repo.shared = Some((*self.r.pick(&["group", "true", "0660", "all", "1"])).into());
        }
        if kind == 3 {
            sc.repo.tick = *self.r.pick(&[40_000_000u64, 400_000_000, 1_300_000_000]);
        }
        let n = self.r.range(2, 4) as usize;
        for _ in 0..n {
            let op = if self.r.chance(1, 8) { "download" } else { "upload" };
            let mut s = self.session(&sc.repo, op);
            if kind == 3 {
                s.user = *self.r.pick(&[1u32, 2, 4, 5, 6, 0, 7, 8]);
            }
            for _ in 0..self.r.range(1, 6) {
                let p = self.r.pick(&paths).clone();
                let o = if op == "download" {
                    self.list(&paths)
                } else {
                    match self.r.weighted(&[5, 4, 2]) {
                        0 => self.lock(&p),
                        1 => self.unlock(&p),
                        _ => self.list(&paths),
                    }
                };
                s.ops.push(o);
            }
            sc.sessions.push(s);
        }
        let mut epoch = 1;
        match kind {
            1 => {
                for i in 0..n {
                    if self.r.chance(1, 2) {
                        let f = match self.r.weighted(&[6, 6, 1, 1, 2, 1]) {
                            0 => self.lock_fault(i),
                            1 => self.lock_kill(i),
                            2 => self.soft(i),
                            3 => self.out_fault(i),
                            4 => self.pause(i),
                            _ => self.in_fault(i),
                        };
                        sc.faults.push(f);
                    }
                }
                if self.r.chance(1, 12) {
                    sc.repo.quota = Some(self.r.range(0, 60));
                }
            }
            2 => {
                let k = self.r.below(n as u64) as usize;
                let f = self.power(k);
                sc.faults.push(f);
                if self.r.chance(1, 3) {
                    let mut s = self.session(&sc.repo, "upload");
                    for _ in 0..3 {
                        let p = self.r.pick(&paths).clone();
                        let o = if self.r.chance(1, 2) { self.lock(&p) } else { self.unlock(&p) };
                        s.ops.push(o);
                    }
                    s.epoch = 1;
                    sc.sessions.push(s);
                    epoch = 2;
                    if self.r.chance(1, 2) {
                        let i = sc.sessions.len() - 1;
                        let f = self.power(i);
                        sc.faults.push(f);
                    }
                }
            }
            3 => {
                for i in 0..n {
                    if self.r.chance(1, 3) {
                        let f = self.jump(i);
                        sc.faults.push(f);
                    }
                    if self.r.chance(1, 3) {
                        let f = self.pause(i);
                        sc.faults.push(f);
                    }
                }
            }
            _ => {
                for i in 0..n {
                    if self.r.chance(1, 4) {
                        let f = if self.r.chance(1, 2) { self.pause(i) } else { self.soft(i) };
                        sc.faults.push(f);
                    }
                }
                if kind == 5 && self.r.chance(1, 2) {
                    let f = if self.r.chance(1, 2) { self.lock_kill(0) } else { self.power(0) };
                    sc.faults.push(f);
                }
            }
        }
        self.audit_locks(sc, &paths, epoch);
    }

    fn lock_fault(&mut self, s: usize) -> Fault {
        let c = *self.r.pick(&[
            Class::Open, Class::Read, Class::Stat, Class::Create, Class::Write, Class::Rename, Class::Link, Class::Unlink,
            Class::ReadDir, Class::Fsync, Class::Chmod,
        ]);
        let e = match c {
            Class::Write | Class::Create | Class::Link => *self.r.pick(&[libc::EIO, libc::ENOSPC]),
            Class::Open => *self.r.pick(&[libc::EIO, libc::EMFILE, libc::EACCES]),
            Class::Unlink => *self.r.pick(&[libc::EIO, libc::EACCES, libc::EPERM, libc::EBUSY, libc::EROFS]),
            _ => libc::EIO,
        };
        Fault { sess: s, class: c, nth: self.nth(8), act: Act::Errno(e) }
    }

    fn lock_kill(&mut self, s: usize) -> Fault {
        let class = *self.r.pick(&[
            Class::Create, Class::Write, Class::Link, Class::Unlink, Class::Rename, Class::Fsync, Class::Open, Class::Read,
            Class::Stat, Class::Out, Class::In, Class::Chmod,
        ]);
        Fault { sess: s, class, nth: self.nth(6), act: if self.r.chance(1, 2) { Act::KillBefore } else { Act::KillAfter } }
    }

    fn paging(&mut self, sc: &mut Scenario) {
        let many = self.r.chance(1, 8);
        let n = match many {
            true if self.r.chance(1, 5) => self.r.range(190, 330),
            true => self.r.range(90, 130),
            false => self.r.range(2, 14),
        } as usize;
        let mut paths: Vec<String> = (0..n).map(|i| format!("p{}.bin", i)).collect();
        if !many && self.r.chance(1, 3) {
            for i in 0..n {
                let p = self.path();
                if p.len() < 6000 {
                    paths[i] = format!("{}{}", p, i);
                }
            }
        }
        let mut s = self.session(&sc.repo, "upload");
        s.client = if self.r.chance(1, 2) { Client::Blast } else { Client::Lockstep };
        if many {
            s.chunks = Chunks::Whole;
            s.out_max = 0;
        }
        let half = if self.r.chance(1, 2) { n } else { n / 2 };
        for p in &paths[..half] {
            s.ops.push(self.lock(p));
        }
        sc.sessions.push(s);
        let k = self.r.range(1, 2) as usize;
        for _ in 0..k {
            let op = if self.r.chance(1, 2) { "download" } else { "upload" };
            let mut s = self.session(&sc.repo, op);
            s.client = Client::Lockstep;
            s.out_max = 0;
            if many {
                s.chunks = Chunks::Whole;
            }
            s.after = vec![0];
            for _ in 0..self.r.range(1, 2) {
                let limit = if many {
                    *self.r.pick(&[None, Some(100), Some(40), Some(101), Some(99), Some(256), Some(1 << 32), Some(u64::MAX)])
                } else {
                    *self.r.pick(&[None, Some(1), Some(2), Some(3), Some(5), Some(n as u64), Some(n as u64 - 1), Some(256), Some(u64::MAX)])
                };
                s.ops.push(Op::List { limit, path: None, args: vec![] });
                let pages = match limit {
                    Some(l) => n / l.min(100) as usize + 2,
                    None => n / 100 + 2,
                };
                // each page looks at all locks
                for _ in 0..pages.min(if n > 150 { 10 } else { 40 }) {
                    s.ops.push(Op::ListNext { limit });
                }
            }
            if self.r.chance(1, 3) {
                let p = self.r.pick(&paths).clone();
                s.ops.push(Op::List { limit: None, path: Some(p), args: vec![] });
            }
            sc.sessions.push(s);
        }
        for _ in 0..self.r.below(3) {
            let mut s = self.session(&sc.repo, "upload");
            s.after = vec![0];
            for _ in 0..self.r.range(1, 5) {
                let p = self.r.pick(&paths).clone();
                let o = if self.r.chance(1, 2) { self.lock(&p) } else { self.unlock(&p) };
                s.ops.push(o);
            }
            sc.sessions.push(s);
        }
        let m = sc.sessions.len();
        if self.r.chance(1, 3) {
            let i = self.r.range(1, m as u64 - 1) as usize;
            let class = *self.r.pick(&[Class::ReadDir, Class::Open, Class::Read, Class::Stat]);
            let act = if class == Class::Read {
                self.oneof(&[Act::Errno(libc::EIO), Act::Eintr, Act::Short(3), Act::Short(1)])
            } else {
                Act::Errno(libc::EIO)
            };
            let nth = self.nth(12);
            sc.faults.push(Fault { sess: i, class, nth, act });
        }
        if self.r.chance(1, 4) {
            let i = self.r.range(1, m as u64 - 1) as usize;
            let f = self.pause(i);
            sc.faults.push(f);
        }
        if self.r.chance(1, 3) {
            let i = self.r.below(m as u64) as usize;
            let f = self.lock_kill(i);
            sc.faults.push(f);
        }
        self.audit_locks(sc, &paths, 1);
    }

    /// something that is nearly an operation
    fn operation(&mut self) -> String {
        let o = *self.r.pick(&["upload", "download"]);
        match self.r.below(14) {
            0 => "".into(),
            1 => "receive".into(),
            2 => o.to_uppercase(),
            3 => o[..1].to_uppercase() + &o[1..],
            4 => format!("{} ", o),
            5 => format!("{}\n", o),
            6 => format!("{}{}", *self.r.pick(&[" ", "\t", "-", "--", "/", "git-lfs-", "re"]), o),
            7 => format!("{}{}", o, *self.r.pick(&["s", "-pack", "/", ",download", ";", "=1", "0"])),
            8 => o[..o.len() - 1].into(),
            9 => o[..2].into(),
            10 => o[..o.len() - 4].into(),
            11 => o[1..].into(),
            12 => format!("{o}{o}"),
            _ => o.replace("load", "LOAD"),
        }
    }

    /// another path which is nearly the same
    fn alike(&mut self, p: &str) -> String {
        match self.r.below(10) {
            0 => p.to_uppercase(),
            1 => p.replacen('a', "A", 1),
            2 => format!("./{}", p),
            3 => format!("{}/", p),
            4 => p.replacen('/', "//", 1),
            5 => p.replace('/', "\\"),
            6 => format!("/{}", p),
            7 => format!("{} ", p),
            8 => format!("{}\u{0}", p),
            _ => p.replacen("bin", "BIN", 1),
        }
    }

    /// something that is nearly an id
    fn mangled(&mut self, id: &str) -> String {
        let up = "../".repeat(self.r.range(1, 9) as usize);
        let to = *self.r.pick(&["decoy", "config", "HEAD", "lfs/decoy", "etc/decoy", "tmp/decoy", "x"]);
        let at = self.r.below(64) as usize;
        match self.r.below(12) {
            // as long as an id
            0 | 1 => {
                let pad = *self.r.pick(&["./", "/", "../"]);
                let mut t = String::new();
                while t.len() + pad.len() + up.len() + to.len() <= 64 {
                    t += pad;
                }
                t += &up;
                t += to;
                t.truncate(64);
                while t.len() < 64 {
                    t.push('0');
                }
                t
            }
            2 => format!("{}/{}{}", id, up, to),
            3 => format!("{}{}", id, &id[..self.r.range(1, 64) as usize]),
            4 => "\u{c3}\u{a9}".repeat(32),
            5 => format!("{}{}", id[..1].to_uppercase(), &id[1..]),
            6 => format!("{}{}{}", &id[..at], self.r.pick(&["g", "/", ".", "=", "\t", "\0", "-", "\n", "\u{ff}"]), &id[at + 1..]),
            7 => format!("0x{}", &id[2..]),
            8 => id[at..].to_string(),
            9 => format!("{}/{}", &id[..at.max(1)], &id[at.max(1)..]),
            10 => format!("{}\u{ff}", id),
            _ => format!("..{}", &id[2..]),
        }
    }

    fn evil_name(&mut self, pool: &[Pay]) -> String {
        let o = oid_of(&pool[0]);
        if self.r.chance(1, 2) {
            let id = match self.r.below(3) {
                0 => lock_id(b"a.bin"),
                1 => o.clone(),
                _ => "0".repeat(64),
            };
            return self.mangled(&id);
        }
        match self.r.below(16) {
            0 => "../../decoy".into(),
            1 => "../decoy".into(),
            2 => "../tmp/decoy".into(),
            3 => "/srv/git/decoy".into(),
            4 => "/etc/decoy".into(),
            5 => format!("../{}", lock_id(b"decoy.bin")),
            6 => format!("../objects/{}/{}/{}", &o[..2], &o[2..4], o),
            7 => format!("./{}", lock_id(b"a.bin")),
            8 => lock_id(b"a.bin").to_uppercase(),
            9 => format!("{}.lock", lock_id(b"a.bin")),
            10 => ".".into(),
            11 => "..".into(),
            12 => "".into(),
            13 => format!("{}\0", lock_id(b"a.bin")),
            14 => format!("{}/", lock_id(b"a.bin")),
            _ => "../../config".into(),
        }
    }

    /// requests that are wrong in some way
    fn wrong(&mut self, pool: &[Pay], paths: &[String]) -> Op {
        let o = oid_of(self.r.pick(pool));
        let path = self.r.pick(paths).clone();
        let pk = |v: &[&str]| Op::Packets(v.iter().map(|x| x.to_string()).collect());
        match self.r.below(44 + 22) {
            44.. => return self.skewed(pool, paths),
            0 => pk(&["frobnicate\n"]),
            1 => pk(&[""]),
            2 => pk(&[]),
            3 => pk(&["\n"]),
            4 => pk(&["version 2\n"]),
            5 => pk(&["version\n"]),
            6 => pk(&["version 1 2\n", "x=y\n"]),
            7 => pk(&["batch\n", "hash-algo=sha1\n", "\u{1}", &format!("{} 5\n", o)]),
            8 => pk(&["batch\n", "\u{1}", "nonsense\n", "lock\n", &format!("path={}\n", path), "refname=x\n"]),
            9 => pk(&["batch\n", "\u{1}", &format!("{} -5\n", o)]),
            10 => pk(&["batch\n", "\u{1}", &format!("{} 18446744073709551616\n", o)]),
            11 => pk(&["batch\n", "\u{1}", &format!("{}\n", o)]),
            12 => pk(&["batch\n", "\u{1}", &format!("{} 5 6\n", o)]),
            13 => pk(&["batch\n"]),
            14 => pk(&["batch\n", "noequals\n", "\u{1}", &format!("{} 5\n", o)]),
            15 => pk(&["batch\n", "\u{1}", &format!("{} 5\n", o), "\u{1}", &format!("{} 5\n", o)]),
            16 => pk(&["get-object abc\n"]),
            17 => pk(&["get-object\n"]),
            18 => pk(&[&format!("get-object {}\n", o)]),
            19 => pk(&["verify-object zz\n", "size=5\n"]),
            20 => pk(&[&format!("verify-object {}\n", o)]),
            21 => pk(&[&format!("verify-object {}\n", o), "size=abc\n"]),
            22 => pk(&["lock\n"]),
            23 => pk(&["lock\n", &format!("path={}\n", path)]),
            24 => pk(&["lock\n", &format!("path={}\n", path), &format!("path={}\n", path), "refname=x\n"]),
            25 => pk(&["lock\n", "junk\n", &format!("path={}\n", path), "refname=x\n"]),
            26 => pk(&["lock extra\n", &format!("path={}\n", path), "refname=x\n"]),
            27 => pk(&["unlock\n"]),
            28 => pk(&["unlock abc\n"]),
            29 => pk(&["list-lock\n", "limit=0\n"]),
            30 => pk(&["list-lock\n", "limit=x\n"]),
            31 => pk(&["list-lock\n", "limit=-1\n"]),
            32 => pk(&["list-lock\n", "cursor=zzz\n"]),
            33 => pk(&["list-lock\n", "limit=99999999999999999999\n"]),
            34 => pk(&["put-object\n", "size=3\n", "\u{1}", "abc"]),
            35 => pk(&["put-object xyz\n", "size=3\n", "\u{1}", "quit\n", "version 1\n"]),
            36 => pk(&["\u{1}", "lock\n"]),
            37 => pk(&["quit now\n"]),
            38 => pk(&["lock"]),
            39 => pk(&["\u{ff}\u{fe}\u{c3}\n", "a=b\n"]),
            40 => pk(&["version 1"]),
            41 => {
                let e = self.evil_name(pool);
                Op::Unlock { id: IdSource::Text(e), args: vec![] }
            }
            42 => pk(&["lock\n", "\u{1}", &format!("path={}\n", path), "refname=x\n"]),
            _ => Op::Packets(vec!["x".repeat(*self.r.pick(&[100usize, 8190, 65_516])), "y=z\n".into()]),
        }
    }

    /// a good request with small changes anywhere
    fn skewed(&mut self, pool: &[Pay], paths: &[String]) -> Op {
        let o = oid_of(self.r.pick(pool));
        let path = self.r.pick(paths).clone();
        let text = *self.r.pick(&["", "a", "some text\n", "0000", "version 1\n"]);
        let hash = crate::client::sha256(text.as_bytes());
        let size = format!("size={}\n", text.len());
        let lock = crate::client::lock_id(&crate::client::bytes(&path));
        let base: Vec<String> = match self.r.below(9) {
            0 => vec!["version 1\n".into()],
            1 => vec!["batch\n".into(), "transfer=ssh\n".into(), "\u{1}".into(), format!("{} 7\n", o), format!("{} {}\n", hash, text.len())],
            2 => vec![format!("put-object {}\n", hash), size, "\u{1}".into(), text.into()],
            3 => vec![format!("verify-object {}\n", hash), size],
            4 => vec![format!("get-object {}\n", o)],
            5 => vec!["lock\n".into(), format!("path={}\n", path), "refname=refs/heads/main\n".into()],
            6 => vec![format!("unlock {}\n", lock), "force=true\n".into()],
            7 => vec!["list-lock\n".into(), "limit=7\n".into(), format!("cursor={}\n", lock)],
            _ => vec!["quit\n".into()],
        };
        let mut v: Vec<Vec<char>> = base.iter().map(|s| s.chars().collect()).collect();
        for _ in 0..self.r.range(1, 2) {
            if v.is_empty() {
                break;
            }
            let k = if self.r.chance(1, 2) { 0 } else { self.r.below(v.len() as u64) as usize };
            let n = v[k].len() as u64;
            let c = *self.r.pick(&[' ', ' ', '\n', '\r', '\t', '=', '\0', '/', '-', '0', ':', 'a', '\u{ff}', '\u{c3}', '\u{a0}']);
            match self.r.weighted(&[6, 6, 6, 4, 4, 4, 2, 2, 2, 1, 2, 2]) {
                0 => v[k].insert(0, c),
                1 => {
                    let p = n.saturating_sub(self.r.below(2));
                    v[k].insert(p as usize, c);
                }
                2 => {
                    let p = self.r.below(n + 1);
                    v[k].insert(p as usize, c);
                }
                3 if n > 0 => {
                    let p = self.r.below(n);
                    v[k].remove(p as usize);
                }
                4 if n > 0 => {
                    v[k].pop();
                }
                5 if n > 0 => {
                    v[k].remove(0);
                }
                6 => {
                    let x = v[k].clone();
                    v.insert(k, x);
                }
                7 => {
                    v.remove(k);
                }
                8 => {
                    let j = self.r.below(v.len() as u64) as usize;
                    v.swap(j, k);
                }
                9 => v[k].clear(),
                10 => v.insert(k + 1, vec!['\u{1}']),
                _ => v[k] = v[k].iter().map(|c| c.to_ascii_uppercase()).collect(),
            }
        }
        Op::Packets(v.into_iter().map(|s| s.into_iter().collect()).collect())
    }

    fn evil(&mut self, pool: &[Pay]) -> Op {
        let e = self.evil_name(pool);
        match self.r.below(6) {
            0 => Op::Packets(vec![format!("get-object {}\n", e)]),
            1 => Op::Packets(vec![format!("verify-object {}\n", e), "size=23\n".into()]),
            2 => Op::Packets(vec!["batch\n".into(), "\u{1}".into(), format!("{} 5\n", e)]),
            3 => Op::Packets(vec![format!("put-object {}\n", e), "size=5\n".into(), "\u{1}".into(), "hello".into()]),
            4 => Op::Packets(vec!["list-lock\n".into(), format!("cursor={}\n", e)]),
            _ => Op::Unlock { id: IdSource::Text(e), args: vec![] },
        }
    }

    /// kind 0 hostile clients, 1 escapes, 2 the wrong mode, 3 faults between
    /// requests, 4 damaged stores, 5 pace, 6 output failures
    fn hostile(&mut self, sc: &mut Scenario, kind: u32) {
        let pool = self.pool(2, 3);
        let mut paths: Vec<String> = vec!["a.bin".into(), "b.bin".into()];
        if self.r.chance(1, 6) {
            paths.push(EVILS.into());
        }
        if self.r.chance(2, 3) || kind == 2 {
            sc.repo.preload = vec![pool[0].clone()];
        }
        if kind == 1 || self.r.chance(1, 6) {
            sc.repo.decoys = true;
        }
        if kind == 4 {
            self.damage(sc, &pool, &paths);
        }
        let n = if kind == 0 || kind == 6 || kind == 2 { self.r.range(1, 2) } else { self.r.range(1, 3) } as usize;
        for i in 0..n {
            let op = match kind {
                2 => match self.r.below(9) {
                    0..=2 => "download".to_string(),
                    3 | 4 => "upload".into(),
                    _ => self.operation(),
                },
                _ => (if self.r.chance(1, 5) { "download" } else { "upload" }).into(),
            };
            let mut s = self.session(&sc.repo, &op);
            if op.starts_with('-') {
                s.args.insert(1, "--".into());
            }
            if kind == 6 {
                s.client = match self.r.below(4) {
                    0 => Client::Lockstep,
                    1 => Client::Pipelined(3),
                    _ => Client::Blast,
                };
                s.chunks = if self.r.chance(2, 3) { Chunks::Whole } else { s.chunks };
            }
            let lo = if kind == 6 { 3 } else { 1 };
            for _ in 0..self.r.range(lo, 7) {
                let w = match kind {
                    0 => [5, 5, 1, 2],
                    1 => [2, 1, 6, 0],
                    2 => [5, 1, 1, 4],
                    3 => [8, 2, 0, 1],
                    4 => [8, 1, 0, 2],
                    5 => [6, 2, 0, 2],
                    _ => [9, 1, 0, 1],
                };
                let o = match self.r.weighted(&w) {
                    0 => self.mixed(&pool, &paths),
                    1 => self.wrong(&pool, &paths),
                    2 => self.evil(&pool),
                    _ => match self.r.below(3) {
                        0 => self.batch(&pool),
                        _ => Op::Get { pay: self.r.pick(&pool).clone() },
                    },
                };
                s.ops.push(o);
            }
            if self.r.chance(1, 4) {
                s.ops.push(Op::Quit);
                if self.r.chance(1, 3) {
                    // what follows a quit is not executed
                    let o = self.mixed_write(&pool, &paths);
                    s.ops.push(o);
                }
            }
            if kind == 0 && self.r.chance(1, 10) {
                s.ops.push(Op::Raw(Hex(self.bad_header())));
            }
            sc.sessions.push(s);
            match kind {
                3 => {
                    for _ in 0..self.r.range(1, 3) {
                        let f = match self.r.weighted(&[6, 2, 1, 1]) {
                            0 => self.store_fault(i),
                            1 => self.soft(i),
                            2 => self.in_fault(i),
                            _ => self.out_fault(i),
                        };
                        sc.faults.push(f);
                    }
                    if self.r.chance(1, 8) {
                        // opening the repository fails
                        let nth = self.r.range(1, 60) as u32;
                        let e = *self.r.pick(&[libc::EIO, libc::EACCES, libc::EMFILE]);
                        sc.faults.push(Fault { sess: i, class: Class::Repo, nth, act: Act::Errno(e) });
                    }
                    if self.r.chance(1, 10) {
                        let f = self.jump(i);
                        sc.faults.push(f);
                    }
                }
                5 => {
                    for _ in 0..self.r.below(4) {
                        let f = self.soft(i);
                        sc.faults.push(f);
                    }
                }
                6 => {
                    if self.r.chance(9, 10) {
                        let f = self.out_fault(i);
                        sc.faults.push(f);
                    }
                    if self.r.chance(1, 6) {
                        let f = self.soft(i);
                        sc.faults.push(f);
                    }
                }
                2 => {
                    if self.r.chance(1, 4) {
                        let f = self.store_fault(i);
                        sc.faults.push(f);
                    }
                }
                _ => {
                    if self.r.chance(1, 8) {
                        let f = self.store_fault(i);
                        sc.faults.push(f);
                    }
                }
            }
        }
        if sc.repo.decoys {
            paths.push("decoy.bin".into());
        }
        self.audit_store(sc, &pool, 1);
        self.audit_locks(sc, &paths, 1);
    }

    fn damage(&mut self, sc: &mut Scenario, pool: &[Pay], paths: &[String]) {
        for _ in 0..self.r.range(1, 2) {
            let path = self.r.pick(paths).clone();
            let pay = self.r.pick(pool).clone();
            sc.repo.preload.retain(|p| oid_of(p) != oid_of(&pay));
            let contents = [
                "".to_string(),
                "v1:".into(),
                "v1:1500000000".into(),
                "v1:x:a.bin".into(),
                "v1:-1:a.bin".into(),
                "v1:99999999999999:a.bin".into(),
                "v1:9223372036854775807:a.bin".into(),
                "v1:-9223372036854775808:a.bin".into(),
                "v2:1500000000:a.bin".into(),
                "v1:1500000000:other".into(),
                "\u{ff}\u{fe}".into(),
                "v1:1500000000".repeat(500),
            ];
            let content = self.r.pick(&contents).clone();
            let d = match self.r.below(9) {
                0 | 1 | 2 => Damage::LockGarbage { path, content },
                3 => Damage::StrayFile { name: format!("{}.lock", lock_id(&bytes(&path))), content },
                4 => Damage::StrayFile { name: (*self.r.pick(&["x", "README", ".nfs0001", "tmp123"])).into(), content },
                5 => Damage::LockDir { path },
                6 => Damage::ObjectGarbage { pay, content: "garbage".into() },
                7 => Damage::ObjectDir { pay },
                _ => {
                    if self.r.chance(1, 2) {
                        Damage::ObjectUnreadable { pay }
                    } else {
                        Damage::LockUnreadable { path }
                    }
                }
            };
            sc.repo.damage.push(d);
        }
    }

    /// shared repositories: several users store and use each other's things
    fn perm(&mut self, sc: &mut Scenario) {
        if self.r.chance(3, 4) {
            sc.repo.shared = Some((*self.r.pick(&["group", "true", "1", "0660", "0664", "all", "0640", "0644", "everybody", "2", "world"])).into());
        }
        sc.repo.lfs_dirs = self.r.chance(1, 4);
        let pool = self.pool(1, 3);
        let paths: Vec<String> = vec!["a.bin".into(), "b.bin".into()];
        let n = self.r.range(1, 3) as usize;
        for i in 0..n {
            let mut s = self.session(&sc.repo, "upload");
            for _ in 0..self.r.range(1, 4) {
                let p = self.r.pick(&pool).clone();
                let path = self.r.pick(&paths).clone();
                let o = match self.r.weighted(&[6, 4, 2, 1, 1]) {
                    0 => self.put(&p),
                    1 => self.lock(&path),
                    2 => self.unlock(&path),
                    3 => self.verify(&pool),
                    _ => self.list(&paths),
                };
                s.ops.push(o);
            }
            sc.sessions.push(s);
            if self.r.chance(1, 3) {
                let f = match self.r.below(4) {
                    0 => self.power(i),
                    1 => self.store_fault(i),
                    2 => Fault { sess: i, class: Class::Chmod, nth: self.nth(4), act: Act::Errno(libc::EPERM) },
                    _ => self.kill(i),
                };
                sc.faults.push(f);
            }
        }
        if self.r.chance(1, 2) {
            let mut s = self.session(&sc.repo, "download");
            for _ in 0..self.r.range(1, 3) {
                let p = self.r.pick(&pool).clone();
                s.ops.push(Op::Get { pay: p });
            }
            sc.sessions.push(s);
        }
        self.audit_store(sc, &pool, 1);
        self.audit_locks(sc, &paths, 1);
    }
}

const EVILS: &str = crate::client::EVIL;
