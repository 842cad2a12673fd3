//! Builds the simulated machine of a scenario.

use crate::client::*;
use crate::fs::*;
use crate::oracle::Truth;
use crate::rng::*;
use crate::scenario::*;
use crate::world::*;

pub const WORK: &str = "/srv/git/proj";
pub const BARE: &str = "/srv/git/proj.git";

/// (directory mode, file mode, gid) of a repository as git would have made it
pub fn repo_modes(shared: Option<&str>) -> (u32, u32, u32) {
    match shared {
        None | Some("umask") | Some("false") | Some("0") => (0o755, 0o644, 1000),
        Some("all") | Some("world") | Some("everybody") | Some("2") => (0o2775, 0o664, 2000),
        Some(x) if x.starts_with('0') && x.len() > 1 => {
            let v = u32::from_str_radix(x, 8).unwrap_or(0o660) & 0o666;
            (0o2000 | v | (v & 0o444) >> 2, v, 2000)
        }
        Some(_) => (0o2770, 0o660, 2000),
    }
}

pub fn repo_path(r: &Repo) -> &'static str {
    if r.bare {
        BARE
    } else {
        WORK
    }
}

pub fn build(sc: &Scenario, trace: bool) -> Box<World> {
    let mut fs = Fs::new();
    fs.now = sc.repo.start;
    let gitdir = if sc.repo.bare { BARE.to_string() } else { format!("{}/.git", WORK) };
    let lfs = format!("{}/lfs", gitdir);
    let mut safe = String::from("[safe]\n");
    for d in ["proj.git", "proj", "proj/.git", "wt"] {
        safe += &format!("\tdirectory = /srv/git/{}\n", d);
    }
    fs.put_file("/etc/gitconfig", safe.as_bytes(), 0o644, 0, 0);
    fs.mkdirs("/home/user", 0o755, 1000, 1000);
    let t = fs.mkdirs("/tmp", 0o1777, 0, 0);
    fs.inodes[t].mode = 0o1777;
    let t = fs.mkdirs("/mnt/scratch", 0o1777, 0, 0);
    fs.inodes[t].mode = 0o1777;
    let dev = fs.mkdirs("/dev", 0o755, 0, 0);
    for n in ["null", "urandom", "random"] {
        let i = fs.new_inode(Node::Null, 0o666, 0, 0, dev);
        fs.add_link(dev, n.as_bytes(), i);
    }
    fs.mkdirs("/srv/git", 0o755, 0, 0);
    let (dm, fm, gid) = repo_modes(sc.repo.shared.as_deref());
    fs.mkdirs(&gitdir, dm, 1000, gid);
    for d in ["objects", "objects/pack", "objects/info", "refs", "refs/heads", "refs/tags"] {
        fs.mkdirs(&format!("{}/{}", gitdir, d), dm, 1000, gid);
    }
    // the same repository by other names
    let srv = fs.mkdirs("/srv/git", 0o755, 0, 0);
    for (n, t) in [("alias", repo_path(&sc.repo)), ("home", "../git")] {
        let i = fs.new_inode(Node::Symlink(t.as_bytes().to_vec()), 0o777, 1000, gid, srv);
        fs.add_link(srv, n.as_bytes(), i);
    }
    let mut cfg = format!("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = {}\n", sc.repo.bare);
    let mut after = String::new();
    if let Some(s) = &sc.repo.shared {
        let other = if s == "0600" { "group" } else { "0600" };
        let core = |v: &str| format!("[core]\n\tsharedRepository = {}\n", v);
        match sc.repo.shared_at {
            1 => {
                fs.put_file("/home/user/.gitconfig", core(s).as_bytes(), 0o644, 1000, 1000);
            }
            2 => {
                fs.mkdirs("/home/user/.config/git", 0o755, 1000, 1000);
                fs.put_file("/home/user/.config/git/config", core(s).as_bytes(), 0o644, 1000, 1000);
            }
            3 => {
                after = "[include]\n\tpath = shared.inc\n".into();
                fs.put_file(&format!("{}/shared.inc", gitdir), core(s).as_bytes(), 0o644, 1000, gid);
            }
            4 => {
                // the repository's own value counts
                fs.put_file("/home/user/.gitconfig", core(other).as_bytes(), 0o644, 1000, 1000);
                after = core(s);
            }
            5 => after = core(other) + &core(s), // the last value counts
            6 => after = format!("[CoRe] SHAREDREPOSITORY=\"{}\" ; said before\n", s),
            _ => cfg += &format!("\tsharedRepository = {}\n", s),
        }
    }
    if let Some(t) = sc.repo.git.as_ref().and_then(|g| g.term.as_ref()) {
        if let Some(p) = &t.core_pager {
            let core = |v: &str| format!("[core]\n\tpager = \"{}\"\n", v);
            match t.core_at {
                1 => {
                    fs.put_file("/home/user/.gitconfig", core(p).as_bytes(), 0o644, 1000, 1000);
                }
                2 => {
                    fs.put_file("/home/user/.gitconfig", core("wrong").as_bytes(), 0o644, 1000, 1000);
                    after += &core(p);
                }
                3 => {
                    fs.put_file(&format!("{}/pager.inc", gitdir), core(p).as_bytes(), 0o644, 1000, gid);
                    after += "[include]\n\tpath = pager.inc\n";
                }
                4 => after += &(core("wrong") + &core(p)),
                _ => after += &core(p),
            }
        }
    }
    cfg += &after;
    fs.put_file(&format!("{}/config", gitdir), cfg.as_bytes(), fm, 1000, gid);
    fs.put_file(&format!("{}/HEAD", gitdir), b"ref: refs/heads/main\n", fm, 1000, gid);
    let mut truth = Truth::default();
    if sc.repo.lfs_dirs || !sc.repo.preload.is_empty() || !sc.repo.damage.is_empty() || sc.repo.decoys {
        for d in ["objects", "incomplete", "tmp", "locks"] {
            fs.mkdirs(&format!("{}/{}", lfs, d), dm, 1000, gid);
        }
    }
    for p in &sc.repo.preload {
        let d = payload(p);
        let oid = sha256(&d);
        fs.mkdirs(&format!("{}/objects/{}/{}", lfs, &oid[..2], &oid[2..4]), dm, 1000, gid);
        fs.put_file(&format!("{}/objects/{}/{}/{}", lfs, &oid[..2], &oid[2..4], oid), &d, fm, 1000, gid);
    }
    if sc.repo.decoys {
        for d in [
            "/srv/git/decoy".to_string(),
            format!("{}/decoy", gitdir),
            format!("{}/decoy", lfs),
            format!("{}/tmp/decoy", lfs),
            "/etc/decoy".into(),
        ] {
            fs.put_file(&d, b"v1:1500000000:decoy.bin", 0o666, 1000, gid);
        }
        // a decoy named like the lock it would be
        fs.put_file(&format!("{}/{}", lfs, lock_id(b"decoy.bin")), b"v1:1500000000:decoy.bin", 0o666, 1000, gid);
    }
    for d in &sc.repo.damage {
        let lockf = |p: &str| format!("{}/locks/{}", lfs, lock_id(&bytes(p)));
        let objf = |p: &Pay| {
            let o = oid_of(p);
            format!("{}/objects/{}/{}/{}", lfs, &o[..2], &o[2..4], o)
        };
        match d {
            Damage::LockGarbage { path, content } => {
                fs.put_file(&lockf(path), &bytes(content), fm, 1000, gid);
                truth.damaged_locks.insert(bytes(path));
            }
            Damage::LockDir { path } => {
                fs.mkdirs(&lockf(path), dm, 1000, gid);
                truth.damaged_locks.insert(bytes(path));
            }
            Damage::LockUnreadable { path } => {
                fs.put_file(&lockf(path), format!("v1:1500000000:{}", path).as_bytes(), 0, 0, 0);
                truth.damaged_locks.insert(bytes(path));
            }
            Damage::StrayFile { name, content } => {
                fs.put_file(&format!("{}/locks/{}", lfs, name), &bytes(content), fm, 1000, gid);
            }
            Damage::ObjectGarbage { pay, content } => {
                fs.put_file(&objf(pay), &bytes(content), fm, 1000, gid);
                truth.damaged.insert(oid_of(pay), Some(bytes(content)));
            }
            Damage::ObjectDir { pay } => {
                fs.mkdirs(&objf(pay), dm, 1000, gid);
                truth.damaged.insert(oid_of(pay), None);
            }
            Damage::ObjectUnreadable { pay } => {
                fs.put_file(&objf(pay), &payload(pay), 0, 0, 0);
                truth.damaged.insert(oid_of(pay), None);
            }
        }
    }
    truth.was_damaged = truth.damaged.clone();
    let git = match &sc.repo.git {
        Some(g) => crate::gitrepo::build(&mut fs, &gitdir, g),
        None => Default::default(),
    };
    fs.used = 0;
    fs.quota = sc.repo.quota;
    fs.checkpoint();

    let mut s = vec![];
    let mut seeds = Rng::new(mix(sc.seed, 77));
    let n = sc.sessions.len();
    let (sseed, pct) = match &sc.sched {
        Sched::Random { seed, .. } => (*seed, None),
        Sched::Pct { seed, depth, len } => (*seed, Some((*depth, *len))),
        Sched::Explicit { .. } => (0, None),
    };
    let mut sched_rng = Rng::new(sseed);
    let mut prios: Vec<u64> = (0..n as u64).map(|x| x + 1_000_000).collect();
    let mut change_points = vec![];
    if let Some((d, len)) = pct {
        for k in (1..n).rev() {
            let j = sched_rng.below(k as u64 + 1) as usize;
            prios.swap(k, j);
        }
        for _ in 0..d {
            change_points.push(sched_rng.below(len.max(1) as u64));
        }
    }
    let mut files = vec![];
    let mk = |files: &mut Vec<OpenFile>, kind| {
        files.push(OpenFile { kind, off: 0, flags: 2, refs: 1, lfs: false, path: "std".into() });
        Some(files.len() - 1)
    };
    for (i, spec) in sc.sessions.iter().enumerate() {
        let u = &USERS[spec.user as usize % USERS.len()];
        let fds = vec![mk(&mut files, OfKind::In), mk(&mut files, OfKind::Out), mk(&mut files, OfKind::Err)];
        let chunk_seed = match spec.chunks {
            Chunks::Random { seed, .. } => seed,
            _ => 0,
        };
        s.push(Session {
            spec: spec.clone(),
            state: State::Waiting,
            fds,
            dirs: vec![],
            cwd: ROOT,
            cred: Cred { uid: u.uid, gid: u.gid, groups: u.groups.to_vec(), umask: spec.umask },
            counts: [0; 18],
            yields: 0,
            client: ClientState::default(),
            stderr: vec![],
            sigpipe_default: false,
            rng: seeds.fork(),
            chunk_rng: Rng::new(chunk_seed),
            hits: vec![],
            in_broken: None,
            out_broken: None,
            start_step: 0,
            end_step: u64::MAX,
            paused_until: 0,
            prio: prios[i],
            refused: vec![],
            blocked: false,
            action: 0,
            out_failed_step: None,
            pid: 100 + i as i64,
            mem_stack: 0,
            spawned: vec![],
            dups: vec![],
            torn: false,
        });
    }
    let mut explicit = std::collections::HashMap::new();
    if let Sched::Explicit { switches } = &sc.sched {
        for x in switches {
            explicit.insert((x.0, x.1), x.2);
        }
    }
    let mut w = Box::new(World {
        sc: sc.clone(),
        fs,
        files,
        s,
        cur: 0,
        step: 0,
        wall: sc.repo.start as i128 * 1_000_000_000,
        mono: 1_000_000_000_000,
        simulated: 0,
        tick: sc.repo.tick,
        sched_rng,
        explicit,
        switches: vec![],
        change_points,
        hash: 0xcbf2_9ce4_8422_2325,
        inter: 0xcbf2_9ce4_8422_2325,
        epoch: 0,
        power: None,
        power_steps: vec![],
        stop: false,
        violations: vec![],
        truth,
        git,
        lfs,
        gitdir,
        fired: Default::default(),
        trace: if trace { Some(vec![]) } else { None },
        dirlocks: Default::default(),
        probes: Default::default(),
        yields_total: 0,
        harness_error: None,
        next: None,
        fd_at_loss: vec![],
        pipes: vec![],
        pager: Default::default(),
    });
    w.truth.walls.push((0, sc.repo.start));
    // session directories: relative opens start in the home directory
    let home = w.fs.find("/home/user").unwrap_or(ROOT);
    let inside = sc.repo.git.as_ref().map(|g| {
        let d = if g.worktree {
            "/srv/git/wt".to_string()
        } else if g.subdir { format!("{}/sub/dir", w.gitdir) } else { repo_path(&sc.repo).to_string() };
        w.fs.find(&d).unwrap_or(ROOT)
    });
    for x in w.s.iter_mut() {
        x.cwd = inside.unwrap_or(home);
    }
    w
}

/// Called once the world is global.
pub fn begin(w: &mut World) {
    crate::oracle::snapshot(w);
}
