//! git-at and git-recent-refs: repositories, other programs at work on them,
//! and what may come out.

use crate::client::{bytes, text};
use crate::fs::*;
use crate::rng::*;
use crate::scenario::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

// ------------------------------------------------------------------ git formats

pub fn sha1(b: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x6745_2301, 0xefcd_ab89, 0x98ba_dcfe, 0x1032_5476, 0xc3d2_e1f0];
    let mut m = b.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((b.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b2, mut c2, mut d, mut e] = h;
        for (i, &x) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b2 & c2) | (!b2 & d), 0x5a82_7999),
                1 => (b2 ^ c2 ^ d, 0x6ed9_eba1),
                2 => ((b2 & c2) | (b2 & d) | (c2 & d), 0x8f1b_bcdc),
                _ => (b2 ^ c2 ^ d, 0xca62_c1d6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(x);
            e = d;
            d = c2;
            c2 = b2.rotate_left(30);
            b2 = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b2, c2, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for &x in b {
        c ^= x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// A zlib stream of stored blocks.
fn zlib(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let mut rest = b;
    loop {
        let n = rest.len().min(65535);
        let last = n == rest.len();
        v.push(last as u8);
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v.extend_from_slice(&(!(n as u16)).to_le_bytes());
        v.extend_from_slice(&rest[..n]);
        rest = &rest[n..];
        if last {
            break;
        }
    }
    let (mut a, mut c) = (1u32, 0u32);
    for &x in b {
        a = (a + x as u32) % 65521;
        c = (c + a) % 65521;
    }
    v.extend_from_slice(&(c << 16 | a).to_be_bytes());
    v
}

/// names which git stores as they are
fn person(k: u8, usual: &str) -> Vec<u8> {
    match k {
        0 => usual.into(),
        1 => b"J\xf6rg <joerg@example.com>".to_vec(),
        2 => b" <nobody@example.com>".to_vec(),
        3 => format!("{} <long@example.com>", "x".repeat(400)).into_bytes(),
        4 => b"A 2020 B <>".to_vec(),
        _ => b"\xc3\xbcber <a b@example.com>".to_vec(),
    }
}

#[derive(Clone, Debug)]
pub struct Object {
    kind: &'static str,
    body: Vec<u8>,
    pub oid: String,
    id: [u8; 20],
}

fn object(kind: &'static str, body: Vec<u8>) -> Object {
    let mut v = format!("{} {}\0", kind, body.len()).into_bytes();
    v.extend_from_slice(&body);
    let id = sha1(&v);
    Object { kind, body, oid: crate::client::hex(&id), id }
}

impl Object {
    fn loose(&self) -> Vec<u8> {
        let mut v = format!("{} {}\0", self.kind, self.body.len()).into_bytes();
        v.extend_from_slice(&self.body);
        zlib(&v)
    }
    fn path(&self, gitdir: &str) -> String {
        format!("{}/objects/{}/{}", gitdir, &self.oid[..2], &self.oid[2..])
    }
}

fn zone(m: i32) -> String {
    format!("{}{:02}{:02}", if m < 0 { '-' } else { '+' }, m.abs() / 60, m.abs() % 60)
}

/// where HEAD and its log are
fn head_dir(g: &GitRepo, gitdir: &str) -> String {
    if g.worktree {
        format!("{}/worktrees/wt", gitdir)
    } else {
        gitdir.to_string()
    }
}

fn commits(g: &GitRepo) -> Vec<Object> {
    let mut v: Vec<Object> = vec![];
    for c in &g.commits {
        let mut b = b"tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\n".to_vec();
        for &p in &c.parents {
            b.extend_from_slice(format!("parent {}\n", v[p as usize].oid).as_bytes());
        }
        b.extend_from_slice(b"author ");
        b.extend_from_slice(&person(c.names.1, "A U Thor <author@example.com>"));
        b.extend_from_slice(format!(" {} {}\n", c.atime, zone(c.zones.1)).as_bytes());
        b.extend_from_slice(b"committer ");
        b.extend_from_slice(&person(c.names.0, "C O Mitter <committer@example.com>"));
        b.extend_from_slice(format!(" {} {}\n\n", c.ctime, zone(c.zones.0)).as_bytes());
        b.extend_from_slice(&bytes(&c.msg));
        v.push(object("commit", b));
    }
    v
}

/// Tags of commits and of tags before them.
fn tags(g: &GitRepo, cs: &[Object]) -> Vec<Object> {
    let mut v: Vec<Object> = vec![];
    for (k, &c) in g.tags.iter().enumerate() {
        let (of, kind) = match v.get((c as usize).wrapping_sub(1000)) {
            Some(t) => (t.oid.clone(), "tag"),
            None => (cs.get(c as usize).unwrap_or(&cs[0]).oid.clone(), "commit"),
        };
        v.push(object(
            "tag",
            format!("object {}\ntype {}\ntag t{}\ntagger T Agger <tagger@example.com> 1400000000 +0000\n\nnote\n", of, kind, k)
                .into_bytes(),
        ));
    }
    v
}

fn pack(objs: &[&Object]) -> (String, Vec<u8>, Vec<u8>) {
    let mut p = b"PACK\0\0\0\x02".to_vec();
    p.extend_from_slice(&(objs.len() as u32).to_be_bytes());
    let mut at: Vec<([u8; 20], u32, u32)> = vec![];
    for o in objs {
        let start = p.len();
        let kind = match o.kind {
            "commit" => 1u8,
            "tree" => 2,
            "blob" => 3,
            _ => 4,
        };
        let mut n = o.body.len();
        let mut b = kind << 4 | (n & 15) as u8;
        n >>= 4;
        while n > 0 {
            p.push(b | 0x80);
            b = (n & 127) as u8;
            n >>= 7;
        }
        p.push(b);
        p.extend_from_slice(&zlib(&o.body));
        at.push((o.id, crc32(&p[start..]), start as u32));
    }
    let ps = sha1(&p);
    p.extend_from_slice(&ps);
    at.sort();
    let mut x = b"\xfftOc\0\0\0\x02".to_vec();
    for k in 0..256usize {
        let n = at.iter().filter(|a| a.0[0] as usize <= k).count() as u32;
        x.extend_from_slice(&n.to_be_bytes());
    }
    for a in &at {
        x.extend_from_slice(&a.0);
    }
    for a in &at {
        x.extend_from_slice(&a.1.to_be_bytes());
    }
    for a in &at {
        x.extend_from_slice(&a.2.to_be_bytes());
    }
    x.extend_from_slice(&ps);
    let xs = sha1(&x);
    x.extend_from_slice(&xs);
    (crate::client::hex(&ps), p, x)
}

// ------------------------------------------------------------------ the repository

#[derive(Clone, Debug, PartialEq)]
pub enum Head {
    Branch(String),
    Detached(u32),
}

#[derive(Clone, Debug)]
enum Ev {
    Ref(String, Option<u32>),
    /// how a reference is stored changes, its value does not
    Stored(String),
    Head(Head),
    Log(Vec<String>),
    Gone(u32),
    Repack,
}

#[derive(Clone, Debug)]
enum Do {
    Put(String, Vec<u8>),
    Unlink(String),
    Nothing,
}

#[derive(Default)]
pub struct GitTruth {
    pub commits: Vec<Object>,
    pub tags: Vec<Object>,
    /// name -> (since step, value)
    refs: BTreeMap<String, Vec<(u64, Option<u32>)>>,
    moved: Vec<(u64, String)>,
    head: Vec<(u64, Head)>,
    log: Vec<(u64, Vec<String>)>,
    gone: Vec<(u64, u32)>,
    repacked: Vec<u64>,
    pub faulted: Vec<(u64, usize, String)>,
    queue: BTreeMap<usize, VecDeque<(Do, Option<Ev>)>>,
    on: bool,
}

impl GitTruth {
    fn oid(&self, v: u32) -> String {
        match v {
            MISSING => "1234567890123456789012345678901234567890".into(),
            TREE => "4b825dc642cb6eb9a060e54bf8d69288fbee4904".into(),
            v if v >= 1000 => self.tags.get(v as usize - 1000).map(|o| o.oid.clone()).unwrap_or_default(),
            v => self.commits.get(v as usize).map(|o| o.oid.clone()).unwrap_or_default(),
        }
    }
}

/// values that make no sense (after shrinking) are left out
fn known(g: &GitRepo, v: u32) -> bool {
    match v {
        MISSING | TREE => true,
        v if v >= 1000 => (v as usize - 1000) < g.tags.len(),
        v => (v as usize) < g.commits.len(),
    }
}

fn packed_text(t: &GitTruth, g: &GitRepo, refs: &BTreeMap<String, u32>) -> Vec<u8> {
    let mut s = String::from("# pack-refs with: peeled fully-peeled sorted \n");
    for (n, &v) in refs {
        s += &format!("{} {}\n", t.oid(v), n);
        if (1000..MISSING).contains(&v) {
            s += &format!("^{}\n", peel(g, v).map(|c| t.oid(c)).unwrap_or_default());
        }
    }
    s.into_bytes()
}

fn log_text(t: &GitTruth, from: &[String], head: &str) -> Vec<u8> {
    let mut s = String::new();
    let z = "0".repeat(40);
    let o = t.commits.first().map(|c| c.oid.clone()).unwrap_or_else(|| z.clone());
    s += &format!("{} {} C O Mitter <committer@example.com> 1300000000 +0000\tcommit (initial): start\n", z, o);
    for (k, f) in from.iter().enumerate() {
        let to = from.get(k + 1).map(|x| x.as_str()).unwrap_or(head);
        s += &format!(
            "{} {} C O Mitter <committer@example.com> {} +0000\tcheckout: moving from {} to {}\n",
            o,
            o,
            1_300_000_001 + k,
            f,
            to
        );
        if k % 3 == 1 {
            // what else moves HEAD
            let m = [
                "commit: work",
                "rebase (start): checkout main",
                "reset: moving to HEAD~1",
                "merge topic/a: Fast-forward",
                "commit: checkout: moving from dev to main",
                "pull: checkout: moving from topic/a to main",
                "Branch: renamed refs/heads/dev to refs/heads/main",
                "commit (amend): moving from main to dev",
                "checkout: moved from dev to main",
            ][(k / 3 + f.len()) % 9];
            s += &format!("{} {} C O Mitter <committer@example.com> {} +0000\t{}\n", o, o, 1_300_000_001 + k, m);
        }
    }
    bytes(&s)
}

pub fn build(fs: &mut Fs, gitdir: &str, g: &GitRepo) -> GitTruth {
    let mut t = GitTruth { on: true, ..Default::default() };
    t.commits = commits(g);
    t.tags = tags(g, &t.commits);
    let put = |fs: &mut Fs, p: &str, d: &[u8]| {
        let (dir, n) = p.rsplit_once('/').unwrap();
        let di = fs.mkdirs(dir, 0o755, 1000, 1000);
        if fs.lookup(di, &bytes(n)).is_some() {
            return;
        }
        let i = fs.new_inode(Node::File(d.to_vec()), 0o644, 1000, 1000, di);
        fs.add_link(di, &bytes(n), i);
    };
    let mut packed: Vec<&Object> = vec![];
    for (k, o) in t.commits.iter().enumerate() {
        if g.pack.contains(&(k as u32)) {
            packed.push(o);
        } else {
            put(fs, &o.path(gitdir), &o.loose());
        }
    }
    for o in &t.tags {
        put(fs, &o.path(gitdir), &o.loose());
    }
    let tree = object("tree", vec![]);
    put(fs, &tree.path(gitdir), &tree.loose());
    if !packed.is_empty() {
        // in as many packs, some of them in the repository this one borrows from
        let parts = (g.packs as usize).max(1);
        let each = (packed.len() + parts - 1) / parts;
        for (k, l) in packed.chunks(each).enumerate() {
            let (n, p, x) = pack(l);
            let dir = if g.borrows && k % 2 == 0 { "/srv/git/base/objects/pack".to_string() } else { format!("{}/objects/pack", gitdir) };
            put(fs, &format!("{}/pack-{}.pack", dir, n), &p);
            put(fs, &format!("{}/pack-{}.idx", dir, n), &x);
        }
    }
    if g.borrows {
        put(fs, &format!("{}/objects/info/alternates", gitdir), b"/srv/git/base/objects\n");
    }
    for (n, v) in &g.refs {
        if known(g, *v) {
            put(fs, &format!("{}/{}", gitdir, n), format!("{}\n", t.oid(*v)).as_bytes());
            t.refs.insert(n.clone(), vec![(0, Some(*v))]);
        }
    }
    for (n, to) in &g.symrefs {
        put(fs, &format!("{}/{}", gitdir, n), format!("ref: {}\n", to).as_bytes());
    }
    for n in &g.broken {
        put(fs, &format!("{}/{}", gitdir, n), b"not a reference\n");
    }
    let mut pr = BTreeMap::new();
    for (n, v) in &g.packed_refs {
        if known(g, *v) {
            pr.insert(n.clone(), *v);
            t.refs.entry(n.clone()).or_insert_with(|| vec![(0, Some(*v))]);
        }
    }
    if !pr.is_empty() {
        put(fs, &format!("{}/packed-refs", gitdir), &packed_text(&t, g, &pr));
    }
    let head = if g.head.starts_with("refs/") {
        Head::Branch(g.head.clone())
    } else {
        Head::Detached(g.head.parse().unwrap_or(0))
    };
    let (ht, hn) = match &head {
        Head::Branch(b) => (format!("ref: {}\n", b), b.trim_start_matches("refs/heads/").to_string()),
        Head::Detached(c) => (format!("{}\n", t.oid(*c)), t.oid(*c)),
    };
    let hd = head_dir(g, gitdir);
    if g.worktree {
        // the main worktree is elsewhere
        fs.put_file(&format!("{}/HEAD", gitdir), b"ref: refs/heads/dev\n", 0o644, 1000, 1000);
        put(fs, &format!("{}/logs/HEAD", gitdir), &log_text(&t, &["topic/a".into(), "topic/b".into()], "dev"));
        put(fs, &format!("{}/commondir", hd), b"../..\n");
        put(fs, &format!("{}/gitdir", hd), b"/srv/git/wt/.git\n");
        put(fs, "/srv/git/wt/.git", format!("gitdir: {}\n", hd).as_bytes());
    }
    fs.mkdirs(&hd, 0o755, 1000, 1000);
    fs.put_file(&format!("{}/HEAD", hd), ht.as_bytes(), 0o644, 1000, 1000);
    t.head.push((0, head));
    let froms: Vec<String> = g
        .reflog
        .iter()
        .map(|f| match f.strip_prefix('#') {
            Some(n) => t.oid(n.parse().unwrap_or(MISSING)),
            None => f.clone(),
        })
        .collect();
    put(fs, &format!("{}/logs/HEAD", hd), &log_text(&t, &froms, &hn));
    let mut newest = froms;
    newest.reverse();
    t.log.push((0, newest));
    if g.subdir {
        fs.mkdirs(&format!("{}/refs/../sub/dir", gitdir).replace("/refs/..", ""), 0o755, 1000, 1000);
    }
    t
}

// ------------------------------------------------------------------ other programs

fn value(w: &World, name: &str) -> Option<u32> {
    w.git.refs.get(name).and_then(|h| h.last()).and_then(|x| x.1)
}

/// the references that have a file of their own
fn loose(w: &World) -> BTreeSet<String> {
    w.git.refs.keys().filter(|n| w.fs.find(&format!("{}/{}", w.gitdir, n)).is_some()).cloned().collect()
}

fn packed(w: &World) -> BTreeMap<String, u32> {
    let mut m = BTreeMap::new();
    if let Some(i) = w.fs.find(&format!("{}/packed-refs", w.gitdir)) {
        for l in String::from_utf8_lossy(w.fs.data(i)).lines() {
            if let Some((o, n)) = l.split_once(' ') {
                let all = (0..w.git.commits.len() as u32)
                    .chain(1000..1000 + w.git.tags.len() as u32)
                    .chain([MISSING, TREE]);
                for v in all {
                    if w.git.oid(v) == o {
                        m.insert(n.to_string(), v);
                    }
                }
            }
        }
    }
    m
}

fn expand(w: &World, a: &Action) -> Vec<(Do, Option<Ev>)> {
    let g = w.sc.repo.git.as_ref().unwrap();
    let gd = w.gitdir.clone();
    let t = &w.git;
    let mut v: Vec<(Do, Option<Ev>)> = vec![];
    match a {
        Action::SetRef { name, to } if known(g, *to) => {
            v.push((Do::Nothing, None));
            v.push((
                Do::Put(format!("{}/{}", gd, name), format!("{}\n", t.oid(*to)).into_bytes()),
                Some(Ev::Ref(name.clone(), Some(*to))),
            ));
        }
        Action::DeleteRef { name } if value(w, name).is_some() => {
            let mut p = packed(w);
            let l = loose(w).contains(name);
            if p.remove(name).is_some() {
                let e = if l { Ev::Stored(name.clone()) } else { Ev::Ref(name.clone(), None) };
                v.push((Do::Put(format!("{}/packed-refs", gd), packed_text(t, g, &p)), Some(e)));
            }
            if l {
                v.push((Do::Unlink(format!("{}/{}", gd, name)), Some(Ev::Ref(name.clone(), None))));
            }
        }
        Action::PackRefs => {
            let mut p = packed(w);
            let l = loose(w);
            for n in &l {
                if let Some(x) = value(w, n) {
                    p.insert(n.clone(), x);
                }
            }
            v.push((Do::Put(format!("{}/packed-refs", gd), packed_text(t, g, &p)), None));
            for n in l {
                v.push((Do::Unlink(format!("{}/{}", gd, n)), Some(Ev::Stored(n.clone()))));
            }
        }
        Action::Checkout { branch, commit } => {
            let was = match &t.head.last().unwrap().1 {
                Head::Branch(b) => b.trim_start_matches("refs/heads/").to_string(),
                Head::Detached(c) => t.oid(*c),
            };
            let (h, txt, now) = match branch {
                Some(b) => (Head::Branch(b.clone()), format!("ref: {}\n", b), b.trim_start_matches("refs/heads/").to_string()),
                None if (*commit as usize) < t.commits.len() => {
                    (Head::Detached(*commit), format!("{}\n", t.oid(*commit)), t.oid(*commit))
                }
                None => return v,
            };
            let mut l = t.log.last().unwrap().1.clone();
            l.insert(0, was);
            let mut old = l.clone();
            old.reverse();
            v.push((Do::Put(format!("{}/logs/HEAD", head_dir(g, &gd)), log_text(t, &old, &now)), Some(Ev::Log(l))));
            v.push((Do::Put(format!("{}/HEAD", head_dir(g, &gd)), txt.into_bytes()), Some(Ev::Head(h))));
        }
        Action::Repack => {
            let l: Vec<&Object> = t.commits.iter().filter(|o| w.fs.find(&o.path(&gd)).is_some()).collect();
            // objects that cannot be read cannot be packed
            let ok = l.iter().all(|o| w.fs.find(&o.path(&gd)).map(|i| w.fs.data(i) == &o.loose()[..]).unwrap_or(false));
            if !l.is_empty() && ok {
                let (n, p, x) = pack(&l);
                v.push((Do::Put(format!("{}/objects/pack/pack-{}.pack", gd, n), p), Some(Ev::Repack)));
                v.push((Do::Put(format!("{}/objects/pack/pack-{}.idx", gd, n), x), None));
                for o in l {
                    v.push((Do::Unlink(o.path(&gd)), None));
                }
            }
        }
        Action::RemoveObject(c) if (*c as usize) < t.commits.len() => {
            v.push((Do::Unlink(t.commits[*c as usize].path(&gd)), Some(Ev::Gone(*c))));
        }
        Action::SpoilObject(c, how) if (*c as usize) < t.commits.len() => {
            let o = &t.commits[*c as usize];
            let d = o.loose();
            let b = match how {
                0 => vec![],
                1 => d[..d.len() / 3].to_vec(),
                _ => vec![0x55; d.len()],
            };
            v.push((Do::Put(o.path(&gd), b), Some(Ev::Gone(*c))));
        }
        Action::Idle => v.push((Do::Nothing, None)),
        _ => (),
    }
    v
}

/// One step of another program.
pub fn act(w: &mut World, i: usize) {
    w.step += 1;
    let t = w.tick;
    w.advance(t);
    if w.git.queue.get(&i).map(|q| q.is_empty()).unwrap_or(true) {
        let k = w.s[i].action;
        if !w.git.on || k >= w.s[i].spec.actions.len() {
            w.end_session(i, End::Exit(0));
            return;
        }
        w.s[i].action += 1;
        let a = w.s[i].spec.actions[k].clone();
        let v = expand(w, &a);
        w.git.queue.insert(i, v.into());
        w.note(format!("s{} {:?}", i, a));
        return;
    }
    let (d, e) = w.git.queue.get_mut(&i).unwrap().pop_front().unwrap();
    w.hash = fnv(w.hash, format!("act{}", i).as_bytes());
    w.inter = fnv(w.inter, &[i as u8, 0xaa]);
    match d {
        Do::Put(p, b) => {
            w.note(format!("s{} writes {}", i, p));
            let (dir, n) = p.rsplit_once('/').unwrap();
            let di = w.fs.mkdirs(dir, 0o755, 1000, 1000);
            let name = bytes(n);
            if w.fs.lookup(di, &name).is_some() {
                w.fs.remove_link(di, &name);
            }
            let ino = w.fs.new_inode(Node::File(b), 0o644, 1000, 1000, di);
            w.fs.add_link(di, &name, ino);
        }
        Do::Unlink(p) => {
            w.note(format!("s{} removes {}", i, p));
            let (dir, n) = p.rsplit_once('/').unwrap();
            if let Some(di) = w.fs.find(dir) {
                w.fs.remove_link(di, &bytes(n));
            }
        }
        Do::Nothing => (),
    }
    let s = w.step;
    match e {
        Some(Ev::Ref(n, v)) => {
            w.git.moved.push((s, n.clone()));
            w.git.refs.entry(n).or_insert_with(|| vec![(0, None)]).push((s, v));
        }
        Some(Ev::Stored(n)) => w.git.moved.push((s, n)),
        Some(Ev::Head(h)) => w.git.head.push((s, h)),
        Some(Ev::Log(l)) => w.git.log.push((s, l)),
        Some(Ev::Gone(c)) => {
            // equal commits are one object
            let id = w.git.oid(c);
            for k in 0..w.git.commits.len() {
                if w.git.commits[k].oid == id {
                    w.git.gone.push((s, k as u32));
                }
            }
        }
        Some(Ev::Repack) => w.git.repacked.push(s),
        None => (),
    }
}

// ------------------------------------------------------------------ judging

/// values of a history in force at some time from `a` to `b`
fn during<T: Clone>(h: &[(u64, T)], a: u64, b: u64) -> Vec<T> {
    let mut v = vec![];
    for (k, x) in h.iter().enumerate() {
        let until = h.get(k + 1).map(|n| n.0).unwrap_or(u64::MAX);
        if x.0 <= b && until > a {
            v.push(x.1.clone());
        }
    }
    v
}

fn reach(g: &GitRepo, c: u32) -> BTreeSet<u32> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![c];
    while let Some(x) = todo.pop() {
        if seen.insert(x) {
            todo.extend(g.commits[x as usize].parents.iter().copied());
        }
    }
    seen
}

/// the commit a reference's value leads to
fn peel(g: &GitRepo, v: u32) -> Option<u32> {
    match v {
        MISSING | TREE => None,
        v if v >= 1000 => match g.tags.get(v as usize - 1000).copied()? {
            t if t >= 1000 && t < v => peel(g, t),
            // as in tags()
            c if (c as usize) < g.commits.len() => Some(c),
            _ => Some(0),
        },
        v if (v as usize) < g.commits.len() => Some(v),
        _ => None,
    }
}

struct At {
    summary: bool,
    quiet: bool,
    nofix: bool,
    show: bool,
    rev: String,
    pattern: String,
}

fn at_args(s: &Sess) -> At {
    let mut a = At { summary: false, quiet: false, nofix: false, show: false, rev: "HEAD".into(), pattern: String::new() };
    let mut pos = vec![];
    for x in &s.args {
        match x.as_str() {
            "-s" | "--summary" => a.summary = true,
            "-q" | "--quiet" => a.quiet = true,
            "--no-fixup" => a.nofix = true,
            "--show" => a.show = true,
            x => pos.push(x.to_string()),
        }
    }
    a.pattern = pos.pop().unwrap_or_default();
    if let Some(r) = pos.pop() {
        a.rev = r;
    }
    a
}

fn invalid(p: &str) -> bool {
    p.starts_with("(unclosed")
}

/// The patterns the generator makes: alternatives of plain words, case folded
/// with (?i).
fn matches(a: &At, msg: &[u8]) -> bool {
    let m: Vec<u8> = msg.iter().copied().skip_while(|&b| b == b'\n').collect();
    if a.nofix {
        let t: Vec<u8> = m.iter().copied().skip_while(|b| b" \t\r\n\x0b\x0c".contains(b)).collect();
        if t.starts_with(b"fixup!") || t.starts_with(b"squash!") {
            return false;
        }
    }
    let body = if a.summary { m.split(|&b| b == b'\n').next().unwrap().to_vec() } else { m };
    let (p, fold) = match a.pattern.strip_prefix("(?i)") {
        Some(p) => (p, true),
        None => (a.pattern.as_str(), false),
    };
    let mut body = body;
    let mut p = p.to_string();
    if fold {
        p.make_ascii_lowercase();
        body.make_ascii_lowercase();
    }
    // the forms which gen_at makes
    let has = |b: &[u8], w: &str| w.is_empty() || b.windows(w.len()).any(|x| x == w.as_bytes());
    let pair = |b: &[u8], x: &str, y: &str| {
        (0..b.len()).any(|k| b[k..].starts_with(x.as_bytes()) && has(&b[k + x.len()..], y))
    };
    if p == "na.ve" {
        return body.windows(5).any(|x| x.starts_with(b"na") && x[2] != b'\n' && x.ends_with(b"ve"));
    }
    if let Some(w) = p.strip_prefix("\\A") {
        return body.starts_with(w.as_bytes());
    }
    if let Some(w) = p.strip_suffix("\\z") {
        return body.ends_with(w.as_bytes());
    }
    if let Some(w) = p.strip_prefix("\\b").and_then(|p| p.strip_suffix("\\b")) {
        let word = |k: usize| body.get(k).map_or(false, |&b| b.is_ascii_alphanumeric() || b == b'_');
        let edge = |k: usize| word(k) != (k > 0 && word(k - 1));
        return (0..body.len()).any(|k| body[k..].starts_with(w.as_bytes()) && edge(k) && edge(k + w.len()));
    }
    if let Some((c, w)) = p.strip_prefix('[').and_then(|p| p.split_once(']')) {
        let fits = |b: u8| match c {
            "aA" => b == b'a' || b == b'A',
            "^a" => b != b'a',
            "b-d" => (b'b'..=b'd').contains(&b),
            _ => b != b'\n',
        };
        return (0..body.len()).any(|k| fits(body[k]) && body[k + 1..].starts_with(w.as_bytes()));
    }
    if let Some(w) = p.strip_suffix('$') {
        return body.ends_with(w.as_bytes()) || body.ends_with(format!("{}\n", w).as_bytes());
    }
    if let Some(w) = p.strip_prefix("(?m)^") {
        return body.split(|&b| b == b'\n').any(|l| l.starts_with(w.as_bytes()));
    }
    if let Some((x, y)) = p.strip_prefix("(?s)").and_then(|p| p.split_once(".*")) {
        return pair(&body, x, y);
    }
    if let Some((x, y)) = p.split_once(".*") {
        return body.split(|&b| b == b'\n').any(|l| pair(l, x, y));
    }
    if let Some((x, y)) = p.split_once("\\s+") {
        return (0..body.len()).any(|k| {
            let rest = match body[k..].strip_prefix(x.as_bytes()) {
                Some(r) => r,
                None => return false,
            };
            let n = rest.iter().take_while(|b| b" \t\r\n\x0b\x0c".contains(b)).count();
            n > 0 && rest[n..].starts_with(y.as_bytes())
        });
    }
    if let Some(w) = p.strip_prefix('(').and_then(|p| p.strip_suffix(") \\1")) {
        return has(&body, &format!("{} {}", w, w));
    }
    p.split('|').any(|w| {
        let (w, front) = match w.strip_prefix('^') {
            Some(w) => (w, true),
            None => (w, false),
        };
        if front {
            body.starts_with(w.as_bytes())
        } else {
            has(&body, w)
        }
    })
}

/// the commit or tag object which this is the id of, or an unambiguous part of it
fn by_id(w: &World, name: &str) -> Option<u32> {
    if name.len() < 12 || name.len() > 40 || !name.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    let at = |v: &Vec<Object>| v.iter().position(|o| o.oid.starts_with(name)).map(|k| k as u32);
    at(&w.git.commits).or_else(|| at(&w.git.tags).map(|k| k + 1000))
}

/// every value a revision may have had: Some(commit), None if there is none
fn revisions(w: &World, g: &GitRepo, rev: &str, a: u64, b: u64) -> Vec<Option<u32>> {
    let cut = rev.find(|c| c == '~' || c == '^').unwrap_or(rev.len());
    let (name, steps) = rev.split_at(cut);
    let look = |n: &str| -> Option<Vec<Option<u32>>> { w.git.refs.get(n).map(|h| during(h, a, b)) };
    let mut vals: Vec<Option<u32>> = vec![];
    if name == "HEAD" || name == "@" {
        for h in during(&w.git.head, a, b) {
            match h {
                Head::Detached(c) => vals.push(Some(c)),
                Head::Branch(n) => vals.extend(look(&n).unwrap_or_else(|| vec![None])),
            }
        }
    } else {
        for n in [name.to_string(), format!("refs/{}", name), format!("refs/tags/{}", name), format!("refs/heads/{}", name)] {
            if let Some(h) = look(&n) {
                let absent = h.contains(&None);
                vals.extend(h.into_iter().filter(|x| x.is_some()));
                if !absent {
                    break;
                }
            }
        }
        let id = by_id(w, name);
        if id.is_some() {
            vals.push(id);
        }
        let was = |n: &str| w.git.refs.get(n).map(|h| during(h, a, b).contains(&None)).unwrap_or(true);
        if id.is_none()
            && [name.to_string(), format!("refs/{}", name), format!("refs/tags/{}", name), format!("refs/heads/{}", name)]
                .iter()
                .all(|n| was(n))
        {
            vals.push(None);
        }
    }
    vals.into_iter()
        .map(|v| {
            let mut c = peel(g, v?)?;
            let mut it = steps.chars().peekable();
            while let Some(x) = it.next() {
                if it.peek() == Some(&'{') {
                    // ^{} and ^{commit}, which change nothing here
                    while it.next().map(|c| c != '}').unwrap_or(false) {}
                    continue;
                }
                let mut n = String::new();
                while it.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) {
                    n.push(it.next().unwrap());
                }
                let k: usize = n.parse().unwrap_or(1);
                if x == '~' {
                    for _ in 0..k {
                        c = *g.commits[c as usize].parents.first()?;
                    }
                } else if k > 0 {
                    c = *g.commits[c as usize].parents.get(k - 1)?;
                }
            }
            Some(c)
        })
        .collect()
}

fn errors(w: &World, i: usize) -> Vec<FaultHit> {
    w.s[i]
        .hits
        .iter()
        .filter(|h| matches!(h.act, Act::Errno(_) | Act::Broken(_) | Act::Eintr))
        .cloned()
        .collect()
}

pub fn judge(w: &mut World) {
    let g = match &w.sc.repo.git {
        Some(g) if w.git.on => g.clone(),
        _ => return,
    };
    for i in 0..w.s.len() {
        let e = match &w.s[i].state {
            State::Done(e) => e.clone(),
            _ => continue,
        };
        if matches!(e, End::Killed | End::Power) {
            continue;
        }
        match w.s[i].spec.prog {
            Prog::GitAt => judge_at(w, &g, i, &e),
            Prog::RecentRefs => judge_recent(w, &g, i, &e),
            _ => (),
        }
    }
}

fn printable(b: &[u8]) -> String {
    text(b).chars().take(200).collect::<String>().replace('\n', "\\n")
}

fn judge_at(w: &mut World, g: &GitRepo, i: usize, e: &End) {
    let a = at_args(&w.s[i].spec);
    let (start, end) = (w.s[i].start_step, w.s[i].end_step);
    let out = w.s[i].client.out.clone();
    let err = w.s[i].stderr.clone();
    let bad_out = w.s[i].out_failed_step.is_some();
    let hits = errors(w, i);
    let bad_err = hits.iter().any(|h| h.class == Class::Err);
    let reads = hits.iter().any(|h| !matches!(h.class, Class::Err | Class::Out));
    let who = format!("git-at {}", w.s[i].spec.args.join(" "));
    let tail = format!("exit {:?}, stdout \"{}\", stderr \"{}\"", e, printable(&out), printable(&err));
    let tips = revisions(w, g, &a.rev, start, end);
    let gone: BTreeSet<u32> = w.git.gone.iter().filter(|x| x.0 <= end).map(|x| x.1).collect();
    // what an undisturbed run says
    let base: Option<(End, Vec<u8>)> = match (&w.s[0].spec.prog, &w.s[0].state) {
        (Prog::GitAt, State::Done(e)) if i > 0 && w.s[0].spec.args == w.s[i].spec.args && errors(w, 0).is_empty() => {
            Some((e.clone(), w.s[0].client.out.clone()))
        }
        _ => None,
    };
    let steady = tips.len() == 1;
    let mut right: BTreeSet<u32> = BTreeSet::new();
    let mut none = false; // it may be that nothing matches
    let mut broken = false; // something the search needs is not there
    for t in &tips {
        match t {
            None => none = true,
            Some(c) => {
                let all = reach(g, *c);
                if all.iter().any(|x| gone.contains(x)) {
                    broken = true;
                }
                let mut m: Vec<u32> = all.into_iter().filter(|&x| matches(&a, &bytes(&g.commits[x as usize].msg))).collect();
                m.sort_by_key(|&x| -g.commits[x as usize].ctime);
                if m.is_empty() {
                    none = true;
                }
                // the newest, whatever the history looks like; of those of the
                // same second any
                let top = m.first().map(|&x| g.commits[x as usize].ctime);
                right.extend(m.into_iter().filter(|&x| Some(g.commits[x as usize].ctime) == top));
            }
        }
    }
    // names that lead to nothing a search can start from
    let dead = dead_end(w, &a.rev, start, end) || a.rev.contains('^') || a.rev.contains('~');
    let oids: BTreeSet<String> = right.iter().map(|&c| w.git.oid(c)).collect();
    let pure = !reads && !bad_out && !bad_err && !broken;
    let replaced = w.git.head.iter().any(|m| m.0 > start && m.0 <= end) || w.git.moved.iter().any(|m| m.0 > start && m.0 <= end);
    let torn = w.s[i].torn && replaced;
    let bad = |w: &mut World, kind: &str, m: String| {
        let kind = if torn { "name cut short" } else { kind };
        if pure {
            w.violate("C21", kind, m.clone());
        }
        w.violate("C19", kind, m)
    };
    let code = match e {
        End::Exit(c) => *c,
        End::Abort | End::Signal(_) => return, // reported with the end itself
        _ => return,
    };
    let spawned = w.s[i].spawned.clone();
    if !spawned.is_empty() {
        for x in &spawned {
            if !a.show || x.len() != 3 || x[0] != "git" || x[1] != "show" || !oids.contains(&x[2]) {
                bad(w, "wrong commit shown", format!("{} runs {:?}; right is one of {:?}", who, x, oids));
            }
        }
        let want = if g.show < 0 { 3 } else { g.show };
        if code != want {
            let m = format!("{}: git show ended with {} and git-at with {}", who, g.show, code);
            w.violate("C22", "status of git show", m.clone());
            bad(w, "status of git show", m);
        }
        return;
    }
    let as_text = text(&out);
    if invalid(&a.pattern) && code < 2 {
        w.violate("C22", "status", format!("{}: {}, though the pattern is invalid", who, tail));
        bad(w, "invalid pattern", format!("{}: {}", who, tail));
        return;
    }
    status(w, i, code, code == 1, &who, &tail);
    match code {
        0 => {
            if out.is_empty() {
                w.violate("C22", "status", format!("{}: {}", who, tail));
            }
            let line = as_text.strip_suffix('\n').unwrap_or("");
            if !oids.contains(line) || a.show {
                bad(w, "wrong commit", format!("{}: {}; right is {:?}", who, tail, oids));
            } else if let (Some((_, b)), true) = (&base, steady) {
                if *b != out {
                    bad(w, "another commit", format!("{}: {}; undisturbed it prints \"{}\"", who, tail, printable(b)));
                }
            }
        }
        1 => {
            if !out.is_empty() {
                w.violate("C22", "output without success", format!("{}: {}", who, tail));
                bad(w, "output without success", format!("{}: {}", who, tail));
            }
            // the revision is given by the id of a commit, and that is gone or looks so
            let id = a.rev.find(|c| c == '~' || c == '^').map(|x| &a.rev[..x]).unwrap_or(&a.rev);
            let named = by_id(w, id);
            // or it is derived from another object, such as a tag
            let by_id = named.is_some() || a.rev.contains('^') || a.rev.contains('~');
            let lost = named.and_then(|v| peel(g, v)).map(|c| gone.contains(&c)).unwrap_or(false);
            let unread = hits_text(w, i).iter().any(|x| x.contains("/objects"));
            if !none && !(dead && broken) && !lost {
                if !(by_id && unread) {
                    let m = format!("{}: {}; {:?} match, faults {:?}", who, tail, oids, hits_text(w, i));
                    w.violate("C22", if torn { "name cut short" } else { "failure reported as no match" }, m);
                }
                bad(
                    w,
                    if by_id && unread { "revision taken for absent" } else { "failure reported as no match" },
                    format!("{}: {}; {:?} match, faults {:?}", who, tail, oids, hits_text(w, i)),
                );
            }
            if a.quiet && !err.is_empty() {
                w.violate("C22", "not quiet", format!("{}: {}", who, tail));
                bad(w, "not quiet", format!("{}: {}", who, tail));
            }
            if !a.quiet && err.is_empty() && !bad_err {
                w.violate("C22", "no message", format!("{}: {}", who, tail));
                bad(w, "no message", format!("{}: {}", who, tail));
            }
        }
        _ => {
            let shown = oids.iter().any(|o| format!("{}\n", o).starts_with(&as_text));
            if !out.is_empty() && !(bad_out && shown) {
                w.violate("C22", "output without success", format!("{}: {}", who, tail));
                bad(w, "output without success", format!("{}: {}", who, tail));
            }
            if err.is_empty() && !bad_err {
                w.violate("C22", "no message", format!("{}: {}", who, tail));
                bad(w, "no message", format!("{}: {}", who, tail));
            }
            let at_rest = !w.git.head.iter().any(|m| m.0 > start && m.0 <= end)
                && !w.git.moved.iter().any(|m| m.0 > start && m.0 <= end)
                && w.git.repacked.is_empty();
            if !reads && !bad_out && !bad_err && !broken && !dead && !invalid(&a.pattern) && at_rest {
                let show_failed = a.show && w.s[i].hits.iter().any(|h| h.class == Class::Misc);
                if !show_failed {
                    w.violate("C22", "status", format!("{}: {}", who, tail));
                    bad(w, "failure for no reason", format!("{}: {}", who, tail));
                }
            }
        }
    }
}

/// Failures that were not a failure to deliver the answer have status 2, or 4 if the
/// repository could not be opened.
fn status(w: &mut World, i: usize, code: i32, no_match: bool, who: &str, tail: &str) {
    let s = &w.s[i];
    let lost = s.out_failed_step.is_some()
        || errors(w, i).iter().any(|h| matches!(h.class, Class::Err | Class::Out | Class::Misc))
        || w.pager.by == Some(i)
        || !s.refused.is_empty();
    if !(code == 0 || code == 2 || code == 4 || lost || no_match) {
        w.violate("C22", "status", format!("{}: {}", who, tail));
    }
}

/// a name that exists but leads to no commit that can be read
fn dead_end(w: &World, rev: &str, a: u64, b: u64) -> bool {
    let g = w.sc.repo.git.as_ref().unwrap();
    let cut = rev.find(|c| c == '~' || c == '^').unwrap_or(rev.len());
    let name = &rev[..cut];
    let mut names: Vec<String> =
        ["", "refs/", "refs/tags/", "refs/heads/"].iter().map(|p| format!("{}{}", p, name)).collect();
    for h in during(&w.git.head, a, b) {
        if let (Head::Branch(n), "HEAD" | "@") = (h, name) {
            names.push(n);
        }
    }
    names.iter().any(|n| {
        w.git.refs.get(n).map(|h| during(h, a, b).iter().any(|v| v.map(|v| peel(g, v).is_none()).unwrap_or(false))).unwrap_or(false)
            || g.broken.contains(n)
    })
}

fn hits_text(w: &World, i: usize) -> Vec<String> {
    w.git.faulted.iter().filter(|x| x.1 == i).map(|x| x.2.clone()).collect()
}

fn judge_recent(w: &mut World, g: &GitRepo, i: usize, e: &End) {
    let (start, end) = (w.s[i].start_step, w.s[i].end_step);
    let paged = w.pager.by == Some(i);
    let out = if paged { w.pager.got.clone() } else { w.s[i].client.out.clone() };
    let err = w.s[i].stderr.clone();
    let mut bad_out = w.s[i].out_failed_step;
    let quit = g.term.as_ref().map(|t| t.quits.is_some()).unwrap_or(false);
    let cut = paged && quit && !w.pager.eof;
    if cut && bad_out.is_none() {
        bad_out = Some(end);
    }
    let hits = errors(w, i);
    let bad_err = hits.iter().any(|h| h.class == Class::Err);
    let who = format!("git-recent-refs {}", w.s[i].spec.args.join(" "));
    let tail = format!("exit {:?}, stdout \"{}\", stderr \"{}\", faults {:?}", e, printable(&out), printable(&err), hits_text(w, i));
    let sort = w.s[i].spec.args.iter().find_map(|x| x.strip_prefix("--sort=")).unwrap_or("visitdate").to_string();
    let code = match e {
        End::Exit(c) => *c,
        End::Signal(s) if *s == libc::SIGPIPE && bad_out.is_some() && (!paged || quit) => 128 + s,
        _ => return, // reported with the end itself
    };
    let bad = |w: &mut World, kind: &str, m: String| {
        let order = ["missing while stored anew", "non-UTF-8 name missing", "placed by an old value"].contains(&kind);
        if g.term.is_some() && !order {
            w.violate("C23", kind, m.clone());
        }
        w.violate("C20", kind, m)
    };
    if g.term.is_some() {
        judge_pager(w, g, i, code, &who, &tail);
    }
    status(w, i, code, false, &who, &tail);
    // what a pager that ends early has not read is lost on purpose
    if code == 0 && !quit && bad_out.is_some() {
        w.violate("C22", "output lost", format!("{}: {}", who, tail));
        bad(w, "output lost", format!("{}: {}", who, tail));
    }
    if code != 0 && err.is_empty() && !bad_err && bad_out.is_none() {
        w.violate("C22", "no message", format!("{}: {}", who, tail));
        bad(w, "no message", format!("{}: {}", who, tail));
    }
    let mut whole = text(&out);
    // a line cut short by the failure of the output
    let mut rest = String::new();
    if !whole.is_empty() && !whole.ends_with('\n') {
        let cut = whole.rfind('\n').map(|x| x + 1).unwrap_or(0);
        rest = whole.split_off(cut);
        if bad_out.is_none() {
            bad(w, "cut line", format!("{}: {}", who, tail));
        }
    }
    // after the failure nothing but what was under way
    if let (Some(f), false) = (bad_out, paged) {
        let before = w.s[i].client.out_marks.iter().filter(|m| m.1 <= f).map(|m| m.0).max().unwrap_or(0);
        let more = text(&out[before.min(out.len())..]);
        if more.matches('\n').count() > 1 {
            bad(w, "output after failure", format!("{}: {}", who, tail));
        }
    }
    let lines: Vec<String> = whole.lines().map(|x| x.to_string()).collect();
    let refs = w.git.refs.clone();
    let existed = |n: &str| refs.get(n).map(|h| during(h, start, end).iter().any(|v| v.is_some())).unwrap_or(false);
    if sort == "visitdate" {
        for l in lines.iter() {
            let c = w.git.commits.iter().any(|o| o.oid == *l);
            let detached = l == "HEAD" && during(&w.git.head, start, end).iter().any(|h| matches!(h, Head::Detached(_)));
            if !c && !detached && !existed(l) {
                bad(w, "untrue line", format!("{}: \"{}\" is neither a reference nor a commit; {}", who, l, tail));
            }
        }
        if !rest.is_empty() && !refs.keys().any(|k| k.starts_with(&rest)) && !"HEAD".starts_with(&rest) && !w.git.commits.iter().any(|o| o.oid.starts_with(&rest)) {
            bad(w, "untrue line", format!("{}: {}", who, tail));
        }
        if !cut {
            visited(w, g, i, &who, &tail, code, &lines);
        }
        return;
    }
    let mut seen = BTreeSet::new();
    let mut placed = vec![];
    for l in lines.iter() {
        if !seen.insert(l.clone()) {
            bad(w, "printed twice", format!("{}: \"{}\"; {}", who, l, tail));
        }
        if !existed(l) {
            bad(w, "untrue line", format!("{}: \"{}\" is not a reference; {}", who, l, tail));
            continue;
        }
        // the latest date it can stand for that keeps the order
        let date = |v: u32| {
            peel(g, v).map(|c| {
                let c = &g.commits[c as usize];
                if sort == "authordate" {
                    c.atime
                } else {
                    c.ctime
                }
            })
        };
        let old = g.packed_refs.iter().filter(|p| p.0 == *l).map(|p| p.1);
        let mut dates: Vec<i64> =
            during(&refs[l], start, end).into_iter().flatten().chain(old.clone().filter(|_| !hits.is_empty())).filter_map(date).collect();
        dates.sort();
        if dates.is_empty() {
            bad(w, "untrue line", format!("{}: \"{}\" leads to no commit; {}", who, l, tail));
            continue;
        }
        // a value which a packed entry held before
        let mut older = dates.clone();
        if moved(w, l, start, end) {
            older.extend(refs[l].iter().filter(|x| x.0 <= end).filter_map(|x| x.1).chain(old).filter_map(date));
            older.sort();
        }
        placed.push((l.clone(), dates, older));
    }
    if let Some((l, m)) = unordered(placed.iter().map(|x| (&x.0, &x.1))) {
        let kind = match unordered(placed.iter().map(|x| (&x.0, &x.2))) {
            None => "placed by an old value",
            Some(_) => "out of order",
        };
        bad(w, kind, format!("{}: \"{}\" {}; {}", who, l, m, tail));
    }
    if !rest.is_empty() && !refs.keys().any(|k| k.starts_with(&rest)) {
        bad(w, "untrue line", format!("{}: {}", who, tail));
    }
    if cut {
        return;
    }
    if code != 0 {
        let gone = w.git.gone.is_empty();
        if hits.is_empty() && bad_out.is_none() && gone && steady(w, start, end) {
            w.violate("C22", "status", format!("{}: {}", who, tail));
            bad(w, "failure for no reason", format!("{}: {}", who, tail));
        }
        return;
    }
    for (n, h) in &refs {
        let v = during(h, start, end);
        let c = match (v.len(), v[0].and_then(|v| peel(g, v))) {
            (1, Some(c)) => c,
            _ => continue,
        };
        if lines.contains(n) || excused(w, i, n, v[0].unwrap(), c, end) {
            continue;
        }
        let kind = match () {
            _ if moved(w, n, start, end) => "missing while stored anew",
            _ if std::str::from_utf8(&bytes(n)).is_err() => "non-UTF-8 name missing",
            _ => "reference missing",
        };
        bad(w, kind, format!("{}: {} is unchanged and readable, but not printed; {}", who, n, tail));
    }
}

/// The pager gets everything, and the program ends after it.
fn judge_pager(w: &mut World, g: &GitRepo, i: usize, code: i32, who: &str, tail: &str) {
    let t = g.term.clone().unwrap();
    let paged = w.pager.by == Some(i);
    let hits = errors(w, i);
    let bad = |w: &mut World, kind: &str, m: String| w.violate("C23", kind, m);
    let first = t.git_pager.clone().or(t.core_pager.clone()).or(t.pager.clone()).unwrap_or_else(|| "less".into());
    let mut right = vec![if t.off { "cat".into() } else { first }];
    if !t.off && hits.iter().any(|h| h.class == Class::Repo) {
        // the configuration could not be read
        right.extend(t.pager.clone().or(Some("less".into())));
        if t.core_at == 2 {
            right.push("wrong".into()); // what it overrides could
        }
    }
    w.probe(match (paged, code) {
        (false, _) => "no pager",
        (true, c) if c > 128 => "pager ended early: SIGPIPE",
        (true, _) if !w.pager.eof => "pager ended early",
        (true, 0) => "paged to the end",
        (true, _) => "paged, failed",
    });
    let none = |p: &String| p == "cat" || p.is_empty();
    if paged {
        let a = w.pager.argv.clone();
        if !(a.len() == 3 && a[0] == "sh" && a[1] == "-c" && right.iter().any(|r| *r == a[2] && !none(r))) {
            bad(w, "wrong pager", format!("{}: starts {:?}; right is {:?}; {}", who, a, right, tail));
        }
        if w.pager.starts > 1 {
            bad(w, "two pagers", format!("{}: {}", who, tail));
        }
        if !w.s[i].client.out.is_empty() {
            let m = format!("{}: \"{}\" goes past the pager", who, printable(&w.s[i].client.out));
            bad(w, "past the pager", m);
        }
        let end = w.s[i].end_step;
        let last = w.s.iter().find(|s| s.spec.prog == Prog::Pager).map(|s| (s.state.clone(), s.end_step));
        if let Some((st, e)) = last {
            if !matches!(st, State::Done(_)) || e > end {
                bad(w, "pager left behind", format!("{} ends at step {}, the pager at step {}; {}", who, end, e, tail));
            }
        }
    } else if !right.iter().any(none) && code == 0 {
        bad(w, "no pager", format!("{}: right is {:?}; {}", who, right, tail));
    }
    if !w.s[i].refused.is_empty() {
        let m = format!("{}: {:?}", who, w.s[i].refused);
        bad(w, "wrong pager", m);
    }
}

fn steady(w: &World, a: u64, b: u64) -> bool {
    !w.git.moved.iter().any(|m| m.0 > a && m.0 <= b)
        && !w.git.repacked.iter().any(|&m| m <= b)
        && !w.git.head.iter().any(|m| m.0 > a && m.0 <= b)
        && !w.git.log.iter().any(|m| m.0 > a && m.0 <= b)
}

/// The first line which no choice among its possible dates puts in order.
fn unordered<'a>(lines: impl Iterator<Item = (&'a String, &'a Vec<i64>)>) -> Option<(String, String)> {
    let mut prev = i64::MAX;
    for (l, dates) in lines {
        match dates.iter().rev().find(|&&d| d <= prev) {
            Some(&d) => prev = d,
            None => return Some((l.clone(), format!("of {:?} after {}", dates, prev))),
        }
    }
    None
}

/// Was the reference packed, deleted or written anew meanwhile, its value unchanged?
fn moved(w: &World, name: &str, a: u64, b: u64) -> bool {
    w.git.moved.iter().any(|m| m.0 > a && m.0 <= b && m.1 == name)
}

fn g_tags(w: &World) -> &[u32] {
    w.sc.repo.git.as_ref().map(|g| &g.tags[..]).unwrap_or(&[])
}

/// Is there a reason why this reference could not be read?
fn excused(w: &World, i: usize, name: &str, v: u32, c: u32, b: u64) -> bool {
    if w.git.repacked.iter().any(|&r| r <= b) {
        return true;
    }
    if w.git.gone.iter().any(|x| x.0 <= b && x.1 == c) {
        return true;
    }
    let gd = &w.gitdir;
    let mut mine = vec![w.git.commits[c as usize].path(gd)];
    let mut t = v;
    while t >= 1000 {
        mine.push(w.git.tags[t as usize - 1000].path(gd));
        t = match g_tags(w).get(t as usize - 1000) {
            Some(&x) if x < t => x,
            _ => 0,
        };
    }
    mine.push(format!("{}/{}", gd, name));
    let others: Vec<String> = w
        .git
        .refs
        .keys()
        .filter(|n| *n != name)
        .map(|n| format!("{}/{}", gd, n))
        .chain(w.git.commits.iter().chain(w.git.tags.iter()).map(|o| o.path(gd)).filter(|p| !mine.contains(p)))
        .collect();
    w.git.faulted.iter().filter(|f| f.1 == i).any(|f| {
        let x = &f.2;
        let mut p = x.split(' ');
        let call = p.next().unwrap_or("");
        let path = p.next().unwrap_or("");
        if call == "write" {
            return false;
        }
        // reading another reference or another object says nothing about this one
        !((call == "open" || call == "read") && others.iter().any(|o| o == path))
    })
}

fn visited(w: &mut World, g: &GitRepo, i: usize, who: &str, tail: &str, code: i32, lines: &[String]) {
    let (start, end) = (w.s[i].start_step, w.s[i].end_step);
    let hits = errors(w, i);
    if !steady(w, start, end) || !w.git.gone.is_empty() {
        // at least what is at rest: HEAD's branch
        return;
    }
    let faults = !hits.is_empty();
    if code != 0 && !faults {
        let m = format!("{}: {}", who, tail);
        w.violate("C20", "failure for no reason", m);
        return;
    }
    if code != 0 {
        return;
    }
    // what an undisturbed run prints, entry by entry
    let val = |n: &str| w.git.refs.get(n).map(|h| during(h, start, end)).and_then(|v| v[0]);
    let mut want: Vec<(String, Option<(String, u32)>)> = vec![];
    match &during(&w.git.head, start, end)[0] {
        Head::Branch(b) => {
            if let Some(v) = val(b) {
                want.push((b.clone(), Some((b.clone(), v))));
            }
        }
        Head::Detached(c) => want.push(("HEAD".into(), Some(("HEAD".into(), *c)))),
    }
    for f in &during(&w.git.log, start, end)[0] {
        let full = format!("refs/heads/{}", f);
        if let Some(v) = val(&full) {
            want.push((full.clone(), Some((full, v))));
        } else if let Some(k) = w.git.commits.iter().position(|o| o.oid == *f) {
            want.push((f.clone(), Some((f.clone(), k as u32))));
        }
    }
    want.retain(|x| {
        let v = x.1.as_ref().unwrap().1;
        peel(g, v).is_some() && v < 1000
    });
    let unusual = want.iter().any(|x| g.broken.contains(&x.0));
    if unusual {
        return;
    }
    // the lines, in order, with gaps only where something could not be read
    let mut k = 0;
    for (n, r) in &want {
        if k < lines.len() && lines[k] == *n {
            k += 1;
            continue;
        }
        if std::str::from_utf8(&bytes(n)).is_err() {
            let m = format!("{}: {} is not printed; {}", who, n, tail);
            w.violate("C20", "non-UTF-8 name missing", m);
            continue;
        }
        let ok = match r {
            Some((_, v)) => excused(w, i, n, *v, peel(g, *v).unwrap(), end),
            None => true,
        };
        if !ok || !faults {
            let m = format!("{}: {} is unchanged and readable, but not printed in its place; {}", who, n, tail);
            w.violate("C20", "reference missing", m);
            return;
        }
    }
    if k < lines.len() {
        let m = format!("{}: \"{}\" is out of place; {}", who, lines[k], tail);
        w.violate("C20", "out of order", m);
    }
}

// ------------------------------------------------------------------ generating

const WORDS: [&str; 8] = ["alpha", "beta", "gamma", "delta", "Alpha", "omega!", "na\u{ef}ve", "x1"];

fn message(r: &mut Rng) -> String {
    let mut m = String::new();
    match r.weighted(&[70, 8, 8, 4, 4, 3, 3, 3, 2]) {
        1 => m += "fixup! ",
        2 => m += "squash! ",
        3 => m += "  fixup!",
        4 => m += "re fixup! ",
        5 => m += "\n",
        6 => m += r.pick(&["fixup", "squash", "fixup ", "squash "]),
        7 => m += "amend! ",
        8 => m += r.pick(&["Fixup! ", "\tsquash! ", "fixup:", "fixup !", "squash:", "squash !", "SQUASH! ", "fixup!", "!fixup! ", "fixups! ", "unfixup! ", "\u{b}fixup! ", "\u{a0}fixup! "]),
        _ => (),
    }
    for _ in 0..r.below(3) {
        m += r.pick(&WORDS);
        m += r.pick(&[" ", " ", " ", " ", " ", " ", "\r", ""]);
    }
    if r.chance(2, 3) {
        m += if r.chance(1, 12) { "\r\n" } else { "\n" };
        if r.chance(1, 2) {
            m.push('\n');
            let words = if r.chance(1, 60) { r.range(500, 4000) } else { r.range(1, 3) };
            for _ in 0..words {
                m += r.pick(&WORDS);
                m += r.pick(&[" ", "\n", "\n\n", "\r\n"]);
            }
            m.push('\n');
        }
    }
    m
}

fn history(r: &mut Rng) -> GitRepo {
    let n = match r.weighted(&[100, 600, 300, 14]) {
        0 => 1,
        1 => r.range(2, 7),
        2 => r.range(5, 16),
        _ if r.chance(1, 3) => r.range(300, 900),
        _ => r.range(60, 300),
    } as u32;
    let roots = if n > 16 { 400 } else { 12 };
    let mut g = GitRepo::default();
    let style = r.weighted(&[60, 10, 30]); // clear, ties, skewed
    // around what a clock shows, the epoch, and the ends of 31 and 32 bits
    let mut t = match r.weighted(&[70, 6, 12, 12]) {
        0 => r.range(1_000_000_000, 1_400_000_000) as i64,
        1 => 600_000,
        2 => (1i64 << 31) - r.below(200_000) as i64,
        _ => (1i64 << 32) - r.below(200_000) as i64,
    };
    let start = t;
    let bushy = r.chance(1, 3);
    let zoned = r.chance(1, 2);
    for k in 0..n {
        t += match style {
            0 => r.range(1, 100_000) as i64,
            1 => r.below(2) as i64,
            _ => r.below(2000) as i64 - 1000,
        };
        t = t.max(start - 50_000);
        let mut parents = vec![];
        if k > 0 && !r.chance(1, roots) {
            let np = if k > 1 && (bushy || r.chance(1, 4)) { r.range(2, 3) } else { 1 };
            for _ in 0..np {
                let p = if r.chance(2, 3) { k - 1 } else { r.below(k as u64) as u32 };
                if !parents.contains(&p) {
                    parents.push(p);
                }
            }
        }
        let atime = match r.weighted(&[50, 40, 10]) {
            0 => t,
            1 => t - 500_000 + r.below(1_000_000) as i64,
            _ => r.range(1, 1 << 33) as i64,
        };
        let mut z = || if r.chance(1, 2) { 0 } else { *r.pick(&[-660, -300, -210, 60, 330, 345, 840]) };
        let zones = if zoned { (z(), z()) } else { (0, 0) };
        let mut p = || if r.chance(1, 8) { r.range(1, 5) as u8 } else { 0 };
        let names = (p(), p());
        g.commits.push(Commit { parents, ctime: t, atime, msg: message(r), zones, names });
    }
    for _ in 0..r.below(3) {
        let k = g.tags.len() as u32;
        g.tags.push(if k > 0 && r.chance(1, 4) { 1000 + r.below(k as u64) as u32 } else { r.below(n as u64) as u32 });
    }
    if r.chance(1, 2) {
        let all = r.chance(1, 2);
        g.pack = (0..n).filter(|_| all || r.chance(1, 2)).collect();
    }
    if r.chance(1, 4) {
        g.packs = r.range(2, 4) as u32;
    }
    g.borrows = r.chance(1, 10);
    g.subdir = r.chance(1, 4);
    g.worktree = !g.subdir && r.chance(1, 8);
    g
}

const BRANCHES: [&str; 8] = ["main", "dev", "topic/a", "topic/b", "x\u{c3}\u{bc}", "feature-1", "r\u{fc}b", "topic/deep/er"];

fn anyref(r: &mut Rng, g: &GitRepo) -> u32 {
    r.below(g.commits.len() as u64) as u32
}

fn fill(r: &mut Rng, g: &mut GitRepo, odd: bool) {
    let mut names: Vec<String> = vec![];
    for b in BRANCHES.iter() {
        // names that are not UTF-8 come only where they are asked for
        if b.starts_with('r') && !(odd && r.chance(1, 3)) {
            continue;
        }
        if *b == "main" || r.chance(1, 2) {
            names.push(format!("refs/heads/{}", b));
        }
    }
    for k in 0..g.tags.len() {
        if r.chance(4, 5) {
            let v = 1000 + k as u32;
            let n = format!("refs/tags/v{}", k);
            if r.chance(1, 2) {
                g.refs.push((n, v));
            } else {
                g.packed_refs.push((n, v));
            }
        }
    }
    if r.chance(1, 60) {
        let most = if r.chance(1, 10) { 600 } else { 150 };
        for k in 0..r.range(50, most) {
            names.push(format!("refs/heads/many/{:03}", k));
        }
    }
    if r.chance(1, 3) {
        names.push("refs/tags/light".into());
    }
    if r.chance(1, 2) {
        names.push("refs/remotes/origin/main".into());
    }
    for n in names {
        let v = anyref(r, g);
        match r.weighted(&[50, 30, 20]) {
            0 => g.refs.push((n, v)),
            1 if n.is_ascii() => g.packed_refs.push((n, v)),
            2 if n.is_ascii() => {
                let old = anyref(r, g);
                g.packed_refs.push((n.clone(), old));
                g.refs.push((n, v));
            }
            _ => g.refs.push((n, v)),
        }
    }
    if r.chance(1, 4) {
        g.symrefs.push(("refs/remotes/origin/HEAD".into(), "refs/remotes/origin/main".into()));
    }
    if odd {
        if r.chance(1, 6) {
            g.refs.push(("refs/heads/lost".into(), MISSING));
        }
        if r.chance(1, 8) {
            g.refs.push(("refs/tags/tree".into(), TREE));
        }
        if r.chance(1, 8) {
            g.broken.push("refs/heads/broken".into());
        }
    }
    g.head = match r.weighted(&[80, 15, 5]) {
        0 => "refs/heads/main".into(),
        1 => format!("{}", anyref(r, g)),
        _ => "refs/heads/unborn".into(),
    };
}

const ERR: [i32; 6] = [libc::EIO, libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::ESTALE];

fn repo_faults(r: &mut Rng, sc: &mut Scenario, sess: usize, max: u64) {
    for _ in 0..[1u64, 1, 1, 2, 3][r.below(5) as usize] {
        let nth = r.range(1, max) as u32;
        let act = match r.weighted(&[70, 10, 20]) {
            0 => Act::Errno(*r.pick(&ERR)),
            1 => Act::Eintr,
            _ => Act::Short(*r.pick(&[1u32, 3, 20, 60])),
        };
        sc.faults.push(Fault { sess, class: Class::Repo, nth, act });
    }
}

fn gsess(prog: Prog, args: Vec<String>) -> Sess {
    Sess {
        prog,
        args,
        user: 1,
        umask: 0o022,
        client: Client::Lockstep,
        ops: vec![],
        chunks: Chunks::Whole,
        out_max: 0,
        cut: None,
        flip: None,
        after: vec![],
        epoch: 0,
        actions: vec![],
        audit: false,
    }
}

fn plain(sc: &mut Scenario) {
    sc.repo.shared = None;
    sc.repo.lfs_dirs = false;
}

pub fn gen_at(r: &mut Rng, sc: &mut Scenario, calm: bool) {
    plain(sc);
    let mut g = history(r);
    fill(r, &mut g, r.0 % 4 == 0);
    let mut args: Vec<String> = vec![];
    for (f, p) in [("--summary", 3), ("-s", 1), ("--no-fixup", 3), ("-q", 1), ("--quiet", 1), ("--show", 1)] {
        if r.chance(p, 10) && !(f == "-s" && args.iter().any(|a| a == "--summary")) && !(f == "--quiet" && args.iter().any(|a| a == "-q")) {
            args.push(f.into());
        }
    }
    g.show = *r.pick(&[0, 0, 0, 1, 128, -1]);
    if r.chance(1, 2) {
        let mut names: Vec<String> = g.refs.iter().chain(g.packed_refs.iter()).map(|x| x.0.clone()).filter(|n| n.is_ascii()).collect();
        names.extend(names.clone().iter().map(|n| n.trim_start_matches("refs/heads/").trim_start_matches("refs/tags/").to_string()));
        names.push("HEAD".into());
        names.push("nosuch".into());
        let k = anyref(r, &g);
        let oid = commits(&g)[k as usize].oid.clone();
        names.push(oid.clone());
        if r.chance(1, 3) {
            names.push(oid[..r.range(12, 39) as usize].to_string());
            let made = commits(&g);
            if let Some(o) = tags(&g, &made).first() {
                names.push(o.oid.clone());
            }
        }
        let mut rev = r.pick(&names).clone();
        match r.weighted(&[70, 12, 8, 5, 5, 2, 2, 1, 1, 1, 1, 1]) {
            1 => rev += "~1",
            2 => rev += "^",
            3 => rev += "~3",
            4 => rev += "^2",
            5 => rev += "^{commit}",
            6 => rev += "^{}",
            7 => rev += "^0",
            8 => rev += "~0",
            9 => rev += "~",
            10 => rev += "^^",
            11 => rev += "^2~1^",
            _ => (),
        }
        args.push(rev);
    }
    let w1 = *r.pick(&WORDS[..7]);
    let w2 = *r.pick(&WORDS);
    let w1 = if w1.is_ascii() { w1 } else { "gamma" };
    let w2 = if w2.is_ascii() { w2 } else { "x1" };
    // something old that is far down
    let n = g.commits.len();
    let far = n > 16 && r.chance(2, 3);
    if far {
        let k = r.below(n as u64 / 4) as usize;
        g.commits[k].msg.insert_str(0, "needle ");
        args.retain(|a| a.starts_with('-'));
        args.push(commits(&g)[n - 1].oid.clone());
        args.push("needle".into());
    }
    let pattern = match r.weighted(&[40, 12, 10, 6, 6, 4, 5, 5, 5, 5, 5, 4, 4, 2, 3, 3, 4, 3]) {
        12 => format!("{} {}", w1, w2),
        13 => "na.ve".into(),
        14 => format!("\\A{}", w1),
        15 => format!("{}\\z", w1),
        16 => format!("\\b{}\\b", w1),
        17 => format!("[{}]{}", r.pick(&["aA", "^a", "b-d", "^\\n"]), &w1[1..]),
        6 => format!("{}$", w1),
        7 => format!("(?m)^{}", w1),
        8 => format!("{}.*{}", w1, w2),
        9 => format!("(?s){}.*{}", w1, w2),
        10 => format!("{}\\s+{}", w1, w2),
        11 => format!("({}) \\1", w1),
        0 => w1.into(),
        1 => format!("{}|{}", w1, w2),
        2 => format!("(?i){}", w1),
        3 => "nowhere".into(),
        4 => format!("^{}", w1),
        _ => "(unclosed".into(),
    };
    if !far {
        args.push(pattern);
    }
    sc.sessions.push(gsess(Prog::GitAt, args.clone()));
    // calm: nothing fails, but other programs may be at work
    let kind = if calm { [2, 2, 5][r.below(3) as usize] } else { r.weighted(&[40, 20, 15, 10, 15]) };
    let mut before = 0;
    if kind == 1 || kind == 3 {
        // damage between the runs
        let mut d = gsess(Prog::Actor, vec![]);
        d.after = vec![0];
        for _ in 0..r.range(1, 2) {
            let c = anyref(r, &g);
            g.pack.retain(|&x| x != c);
            d.actions.push(if r.chance(1, 2) { Action::RemoveObject(c) } else { Action::SpoilObject(c, *r.pick(&[0u8, 2])) });
        }
        sc.sessions.push(d);
        before = 1;
    }
    let mut s = gsess(Prog::GitAt, args);
    s.after = vec![before];
    s.out_max = *r.pick(&[0u32, 0, 0, 1, 7]);
    sc.sessions.push(s);
    let me = sc.sessions.len() - 1;
    match kind {
        0 | 3 => {
            let max = *r.pick(&[30u64, 90, 160, 240]);
            repo_faults(r, sc, me, max);
        }
        4 => {
            if r.chance(1, 2) {
                repo_faults(r, sc, me, 160);
            }
            let nth = r.range(1, 2) as u32;
            let e = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE]);
            let act = match r.below(4) {
                0 => Act::Errno(e),
                1 => Act::Eintr,
                2 => Act::Short(*r.pick(&[1u32, 5, 40])),
                _ => Act::Broken(e),
            };
            sc.faults.push(Fault { sess: me, class: Class::Out, nth, act });
            if r.chance(1, 5) {
                sc.faults.push(Fault { sess: me, class: Class::Err, nth: 1, act: Act::Errno(libc::EIO) });
            }
        }
        2 => {
            // other programs at work
            let mut d = gsess(Prog::Actor, vec![]);
            d.after = vec![before];
            for _ in 0..r.range(1, 3) {
                d.actions.push(actions(r, &g, true));
            }
            sc.sessions.push(d);
            if !calm && r.chance(1, 3) {
                repo_faults(r, sc, me, 160);
            }
        }
        _ => (),
    }
    sc.repo.git = Some(g);
}

fn actions(r: &mut Rng, g: &GitRepo, at: bool) -> Action {
    let names: Vec<String> = g.refs.iter().chain(g.packed_refs.iter()).map(|x| x.0.clone()).filter(|n| n.starts_with("refs/heads/") && n.is_ascii()).collect();
    let name = if names.is_empty() { "refs/heads/main".to_string() } else { r.pick(&names).clone() };
    match r.weighted(&[30, 12, 20, if at { 5 } else { 20 }, 12, 10, 6]) {
        0 => Action::SetRef { name, to: anyref(r, g) },
        1 => Action::DeleteRef { name },
        2 => Action::PackRefs,
        3 => {
            if r.chance(2, 3) {
                Action::Checkout { branch: Some(name), commit: 0 }
            } else {
                Action::Checkout { branch: None, commit: anyref(r, g) }
            }
        }
        4 => Action::Repack,
        5 => Action::SetRef { name: format!("refs/heads/new{}", r.below(3)), to: anyref(r, g) },
        _ => Action::Idle,
    }
}

const PAGERS: [&str; 6] = ["less", "more -s", "cat", "", "less -R | tee x", "nosuch"];

/// git-recent-refs on a terminal
pub fn gen_pager(r: &mut Rng, sc: &mut Scenario) {
    gen_recent(r, sc);
    sc.faults.retain(|f| f.class != Class::Out || matches!(f.act, Act::Eintr | Act::Short(_)));
    for k in [10u32, 22, 40] {
        if r.chance(1, 8) {
            // starting the pager and waiting for it
            let act = if r.chance(1, 2) { Act::Eintr } else { Act::Errno(*r.pick(&[libc::EAGAIN, libc::ENOMEM])) };
            sc.faults.push(Fault { sess: 0, class: Class::Misc, nth: r.range(1, k as u64) as u32, act });
        }
    }
    let mut any = |p: u64| if r.chance(p, 10) { Some(r.pick(&PAGERS).to_string()) } else { None };
    let mut t = Term { git_pager: any(3), core_pager: any(4), pager: any(5), ..Term::default() };
    t.cap = *r.pick(&[1u32, 5, 16, 60, 65536]);
    t.chunk = *r.pick(&[1u32, 7, 4096]);
    t.slow = if r.chance(1, 8) { r.range(200, 600) } else { r.below(6) } as u32;
    t.quits = if r.chance(1, 4) { Some(r.below(60) as u32) } else { None };
    t.status = *r.pick(&[0, 0, 0, 1, 127]);
    t.off = r.chance(1, 8);
    t.others = r.chance(1, 2);
    t.core_at = if r.chance(1, 2) { r.below(5) as u8 } else { 0 };
    if let Some(g) = sc.repo.git.as_mut() {
        g.term = Some(t);
    }
    sc.sessions.push(gsess(Prog::Pager, vec![]));
}

pub fn gen_recent(r: &mut Rng, sc: &mut Scenario) {
    plain(sc);
    let mut g = history(r);
    fill(r, &mut g, true);
    let sort = *r.pick(&["visitdate", "committerdate", "authordate", ""]);
    let entries = match r.below(400) {
        0 => r.range(300, 1200),
        1..=10 => r.range(30, 130),
        _ => r.below(7),
    };
    for _ in 0..entries {
        let c = anyref(r, &g);
        g.reflog.push(match r.weighted(&[60, 20, 10, 5, 5]) {
            0 => r.pick(&BRANCHES[..6]).to_string(),
            1 => format!("#{}", c),
            2 => "deleted-branch".into(),
            3 => format!("#{}", MISSING),
            _ => BRANCHES[6].to_string(),
        });
    }
    let args = if sort.is_empty() { vec![] } else { vec![format!("--sort={}", sort)] };
    let mut s = gsess(Prog::RecentRefs, args);
    s.out_max = *r.pick(&[0u32, 0, 0, 1, 7]);
    sc.sessions.push(s);
    let kind = r.weighted(&[40, 25, 10, 15, 10]);
    if kind == 0 || kind == 3 {
        let max = *r.pick(&[60u64, 130, 250]);
        repo_faults(r, sc, 0, max);
    }
    if kind == 1 || kind == 3 {
        for _ in 0..r.range(1, 2) {
            let mut d = gsess(Prog::Actor, vec![]);
            for _ in 0..r.range(1, 4) {
                d.actions.push(actions(r, &g, false));
            }
            sc.sessions.push(d);
        }
    }
    if kind == 2 {
        let nth = r.range(1, 9) as u32;
        let e = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE]);
        let act = match r.below(4) {
            0 => Act::Errno(e),
            1 => Act::Eintr,
            2 => Act::Short(*r.pick(&[1u32, 5, 40])),
            _ => Act::Broken(e),
        };
        sc.faults.push(Fault { sess: 0, class: Class::Out, nth, act });
    }
    if kind == 4 {
        let c = anyref(r, &g);
        g.pack.retain(|&x| x != c);
        let mut d = gsess(Prog::Actor, vec![]);
        d.actions.push(if r.chance(1, 2) { Action::RemoveObject(c) } else { Action::SpoilObject(c, *r.pick(&[0u8, 2])) });
        sc.sessions.push(d);
        sc.sessions[0].after = vec![1];
    }
    sc.repo.git = Some(g);
}
