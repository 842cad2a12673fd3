//! What must be true: invariants checked at every mutation, and the judgement
//! of the recorded history afterwards.  The expected meaning of every request
//! is derived from the input bytes themselves by an independent reading of the
//! protocol.

use crate::client::*;
use crate::fs::*;
use crate::lin::{self, Acq, LOp, Rec, Verdict, K};
use crate::scenario::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub struct Ns {
    pub step: u64,
    pub sess: usize,
    pub link: bool,
    pub path: String,
    pub ino: Ino,
    pub dir: bool,
}

#[derive(Default)]
pub struct Truth {
    pub touches: Vec<Touch>,
    pub ids: HashMap<Vec<u8>, String>,
    pub ns: Vec<Ns>,
    /// oid -> (step, size if visible from here on)
    pub objs: BTreeMap<String, Vec<(u64, Option<u64>)>>,
    /// objects damaged on purpose: (contents)
    pub damaged: BTreeMap<String, Option<Vec<u8>>>,
    /// the same, but kept when the object is replaced
    pub was_damaged: BTreeMap<String, Option<Vec<u8>>>,
    pub damaged_locks: BTreeSet<Vec<u8>>,
    pub stray: bool,
    pub walls: Vec<(u64, i64)>,
    /// errors the simulated system gave without being told to
    pub natural: Vec<(u64, usize, i64, String)>,
    pub contents: BTreeMap<String, Vec<u8>>,
    pub checked_modes: u64,
    pub requests: u64,
    pub answers: u64,
    pub lin_ops: u64,
    pub lin_gaveup: u64,
}

pub fn greeted(s: &Session) -> bool {
    s.client.greeting.is_some()
}

fn base(path: &str) -> &str {
    path.rsplit('/').next().unwrap_or("")
}

fn object_name(w: &World, path: &str) -> Option<String> {
    let pre = format!("{}/objects/", w.lfs);
    if path.starts_with(&pre) && is_oid(base(path).as_bytes()) {
        Some(base(path).to_string())
    } else {
        None
    }
}

fn lock_name(w: &World, path: &str) -> Option<String> {
    let pre = format!("{}/locks/", w.lfs);
    if path.starts_with(&pre) && is_oid(base(path).as_bytes()) {
        Some(base(path).to_string())
    } else {
        None
    }
}

pub fn before_input(w: &mut World, i: usize) -> bool {
    resources(w, i);
    if let Some(c) = feed(w, i) {
        w.violate("C15", "no answer", format!("session {}: {}", i, c));
        w.violate("C10", "no answer", format!("session {}: {}", i, c));
        return false;
    }
    true
}

extern "C" {
    static sim_mem: [i64; 64];
    static sim_peak: [i64; 64];
}

/// How much more than at its first request a session may have, and the sizes
/// of what it needs for a request and of all it has been told.
const FDS: usize = 12;
const FILES: usize = 12;
const KEPT: i64 = 192 << 10;
const USED: i64 = 1 << 20;

/// C24: an idle session holds what it held at the start; serving a request
/// never takes memory for the whole of an object.
fn resources(w: &mut World, i: usize) {
    let c = &w.s[i].client;
    if w.s[i].spec.prog != Prog::Transfer
        || c.greeting.is_none()
        || c.lost
        || c.read_pos < c.input.len()
        || c.complete_reqs != c.answers.len()
        || c.scan_pos < c.input.len()
    {
        return;
    }
    let fds = w.s[i].fds.iter().filter(|f| f.is_some()).count();
    let (mem, peak) = unsafe { (sim_mem[i], sim_peak[i]) };
    let n = c.answers.len();
    let (fds0, mem0) = match c.first_idle {
        Some(x) => x,
        None => {
            if n == 0 {
                w.s[i].client.first_idle = Some((fds, mem));
            }
            return;
        }
    };
    let told: usize = w.s.iter().map(|s| s.client.ctl).sum();
    let kept = mem0 + KEPT + 4 * c.ctl_max as i64;
    let used = mem0 + USED + 16 * told as i64;
    if fds > fds0 + FDS {
        let names: Vec<String> = w.s[i].fds.iter().flatten().map(|f| w.files[*f].path.clone()).collect();
        let m = format!(
            "session {} holds {} descriptors after {} requests, {} before the first: {}",
            i, fds, n, fds0, names.join(" ")
        );
        w.violate("C24", "descriptors", m);
    }
    if mem > kept {
        let m = format!("session {} holds {} bytes after {} requests, {} before the first", i, mem, n, mem0);
        w.violate("C24", "memory kept", m);
    }
    if peak > used {
        let m = format!(
            "session {} used {} bytes at a time, {} before the first of {} requests with {} bytes besides the payloads",
            i, peak, mem0, n, told
        );
        w.violate("C24", "memory", m);
    }
    if n % 16 == 0 {
        let f = own_files(w, i, u64::MAX);
        let lost = w.s[i].hits.iter().filter(|h| h.class == Class::Unlink).count();
        if f.len() > FILES + lost {
            let m = format!("{} files of session {} are left after {} requests, such as {}", f.len(), i, n, f.keys().next().unwrap());
            w.violate("C24", "files", m);
        }
    }
}

fn status(w: &mut World, kind: &str, m: String) {
    w.violate("C22", kind, m.clone());
    w.violate("C14", kind, m);
}

pub fn step_limit(w: &mut World, me: usize, cls: &str) {
    let m = format!("session {} is still making {} calls after {} system calls", me, cls, w.sc.step_limit);
    if w.git_on() {
        for p in ["C19", "C20", "C21", "C22", "C23"] {
            w.violate(p, "no progress", m.clone());
        }
    }
    w.violate("C14", "no progress", m.clone());
    w.violate("C15", "no progress", m);
}

fn verify_object(w: &mut World, oid: &str, ino: Ino, when: &str) {
    if w.truth.damaged.contains_key(oid) {
        return;
    }
    let ok = match w.fs.inodes[ino].node {
        Node::File(ref d) => sha256(d) == oid,
        _ => false,
    };
    if !ok {
        let step = w.step;
        let n = w.fs.size(ino);
        w.violate(
            "C01",
            "wrong object",
            format!("{}: step {}: lfs/objects/…/{} holds {} bytes that do not have that hash", when, step, oid, n),
        );
    }
}

fn obj_event(w: &mut World, oid: &str, st: Option<u64>) {
    let step = w.step;
    w.truth.objs.entry(oid.to_string()).or_default().push((step, st));
}

pub fn linked(w: &mut World, dir: Ino, name: &[u8], ino: Ino) {
    let path = w.fs.entry_path(dir, name);
    if !crate::sys::in_lfs(&path) {
        return;
    }
    let isdir = w.fs.is_dir(ino);
    let (step, sess) = (w.step, w.cur);
    w.truth.ns.push(Ns { step, sess, link: true, path: path.clone(), ino, dir: isdir });
    if let Some(oid) = object_name(w, &path) {
        if !isdir {
            w.truth.damaged.remove(&oid);
        }
        w.fs.inodes[ino].obj = Some(oid.clone());
        verify_object(w, &oid, ino, "published");
        let n = w.fs.size(ino);
        obj_event(w, &oid, Some(n));
        if !w.truth.contents.contains_key(&oid) {
            let d = w.fs.data(ino).to_vec();
            w.truth.contents.insert(oid, d);
        }
        check_mode(w, ino, &path, "becomes visible");
    } else if lock_name(w, &path).is_some() || isdir {
        check_mode(w, ino, &path, "becomes visible");
    }
}

pub fn unlinked(w: &mut World, dir: Ino, name: &[u8], ino: Ino) {
    let path = w.fs.entry_path(dir, name);
    if !crate::sys::in_lfs(&path) {
        return;
    }
    let isdir = w.fs.is_dir(ino);
    let (step, sess) = (w.step, w.cur);
    w.truth.ns.push(Ns { step, sess, link: false, path: path.clone(), ino, dir: isdir });
    if let Some(oid) = object_name(w, &path) {
        w.truth.damaged.remove(&oid);
        obj_event(w, &oid, None);
    }
}

pub fn data_changed(w: &mut World, ino: Ino) {
    if let Some(oid) = w.fs.inodes[ino].obj.clone() {
        if w.fs.inodes[ino].nlink > 0 {
            verify_object(w, &oid, ino, "written while visible");
            let n = w.fs.size(ino);
            obj_event(w, &oid, Some(n));
        }
    }
}

pub fn attr_changed(w: &mut World, ino: Ino, path: &str) {
    let fin = object_name(w, path).is_some() || lock_name(w, path).is_some() || w.fs.is_dir(ino);
    if crate::sys::in_lfs(path) && fin && w.fs.inodes[ino].nlink > 0 {
        check_mode(w, ino, path, "is changed");
    }
}

pub fn clock_jump(w: &mut World) {
    second(w);
}
pub fn clock_read(_w: &mut World) {}

/// Called whenever the wall clock moved.
pub fn second(w: &mut World) {
    let (step, now) = (w.step, w.fs.now);
    if w.truth.walls.last().map(|x| x.1) != Some(now) {
        w.truth.walls.push((step, now));
    }
}

fn wall_range(w: &World, a: u64, b: u64) -> (i64, i64) {
    let v = &w.truth.walls;
    let k = v.partition_point(|x| x.0 < a);
    let mut lo = i64::MAX;
    let mut hi = i64::MIN;
    for x in &v[k.saturating_sub(1)..] {
        if x.0 > b {
            break;
        }
        lo = lo.min(x.1);
        // before 1970, whole seconds may be counted either way
        hi = hi.max(if x.1 < 0 { x.1 + 1 } else { x.1 });
    }
    (lo, hi)
}

/// Read and write bits the configuration grants, or None if it says nothing
/// definite.
pub fn expected_rw(w: &World, sess: usize) -> Option<u32> {
    let um = 0o666 & !w.s[sess].spec.umask;
    match w.sc.repo.shared.as_deref() {
        None | Some("umask") | Some("false") | Some("0") => Some(um),
        Some("group") | Some("true") | Some("1") => Some(0o660),
        Some("all") | Some("world") | Some("everybody") | Some("2") => Some(0o664),
        Some(x) if x.starts_with('0') => u32::from_str_radix(x, 8).ok().map(|v| v & 0o666),
        _ => None,
    }
}

fn check_mode(w: &mut World, ino: Ino, path: &str, when: &str) {
    let sess = w.cur;
    if w.s[sess].spec.prog != Prog::Transfer || matches!(w.fs.inodes[ino].node, Node::Symlink(_)) {
        return;
    }
    let e = match expected_rw(w, sess) {
        Some(e) => e,
        None => return,
    };
    w.truth.checked_modes += 1;
    let m = w.fs.inodes[ino].mode;
    let x = if w.fs.is_dir(ino) { (e & 0o444) >> 2 } else { 0 };
    if m & 0o666 != e || m & x != x {
        let msg = format!(
            "step {}: {} {} with mode {:04o}; core.sharedRepository={:?} and umask {:03o} grant {:04o}",
            w.step, path, when, m, w.sc.repo.shared, w.s[sess].spec.umask, e | x
        );
        w.violate("C17", "mode", msg);
    }
}

/// Registers what is visible now, at the start and after a power loss.
pub fn snapshot(w: &mut World) {
    let dir = format!("{}/objects", w.lfs);
    let mut v = vec![];
    if let Some(d) = w.fs.find(&dir) {
        w.fs.walk(d, "", &mut v);
    }
    let mut here = BTreeSet::new();
    for (p, ino) in v {
        if is_oid(base(&p).as_bytes()) {
            let oid = base(&p).to_string();
            w.fs.inodes[ino].obj = Some(oid.clone());
            if let Some(d) = w.truth.was_damaged.get(&oid).cloned() {
                // the power loss may have undone its replacement
                let as_found = match (&w.fs.inodes[ino].node, &d) {
                    (Node::File(x), Some(y)) => x == y,
                    _ => false,
                };
                if as_found {
                    w.truth.damaged.insert(oid.clone(), d);
                }
            }
            verify_object(w, &oid, ino, "found");
            here.insert(oid.clone());
            let n = w.fs.size(ino);
            if w.truth.objs.get(&oid).and_then(|t| t.last()).and_then(|x| x.1) != Some(n) {
                obj_event(w, &oid, Some(n));
            }
            if !w.truth.contents.contains_key(&oid) {
                let d = w.fs.data(ino).to_vec();
                w.truth.contents.insert(oid, d);
            }
        }
    }
    let gone: Vec<String> = w
        .truth
        .objs
        .iter()
        .filter(|(k, t)| t.last().map(|x| x.1.is_some()).unwrap_or(false) && !here.contains(*k))
        .map(|(k, _)| k.clone())
        .collect();
    for g in gone {
        obj_event(w, &g, None);
    }
}

pub fn after_power_loss(w: &mut World) {
    snapshot(w);
    // modes of what survived: everything a session ever published
    let mut last: BTreeMap<(String, Ino), usize> = BTreeMap::new();
    for n in &w.truth.ns {
        if n.link {
            last.insert((n.path.clone(), n.ino), n.sess);
        }
    }
    let keep = w.cur;
    for ((p, was), sess) in last {
        // (what survives may be what another session published there before)
        if w.fs.find(&p) != Some(was) {
            continue;
        }
        let fin = object_name(w, &p).is_some() || lock_name(w, &p).is_some();
        if let Some(ino) = w.fs.find(&p) {
            if fin || w.fs.is_dir(ino) {
                w.cur = sess;
                check_mode(w, ino, &p, "survives the power loss");
            }
        }
    }
    w.cur = keep;
}

// ------------------------------------------------------------------------
// the meaning of a request

#[derive(Clone, Debug, PartialEq)]
pub enum Sem {
    Version,
    Quit,
    Batch { items: Vec<(String, u64)> },
    Put { oid: String, size: u64 },
    Verify { oid: String, size: u64 },
    Get { oid: String },
    Lock { path: Vec<u8> },
    Unlock { id: String },
    List { limit: u64, path: Option<Vec<u8>>, cursor: Option<Vec<u8>> },
    /// must be answered with an error and have no effect
    Refuse(&'static str),
    /// not specified beyond getting one answer
    Any,
}

#[derive(Clone, Debug)]
pub struct Meaning {
    pub sem: Sem,
    /// an error answer is acceptable as well
    pub odd: bool,
    pub cmd: String,
}

fn number(b: &[u8]) -> Result<u64, bool> {
    // Err(true): clearly not a number
    let t = text(b);
    if t.bytes().all(|c| c.is_ascii_digit()) {
        if let Ok(n) = t.parse() {
            return Ok(n);
        }
    }
    Err(t.is_empty() || t.bytes().any(|c| !c.is_ascii_digit() && c != b'+'))
}

fn parse_args(pk: &[Pk]) -> Option<BTreeMap<Vec<u8>, Vec<u8>>> {
    let mut m = BTreeMap::new();
    for p in pk {
        let d = match p {
            Pk::Data(d) => d,
            _ => return None,
        };
        let k = d.iter().position(|&c| c == b'=')?;
        if *d.last().unwrap() != b'\n' || m.insert(d[..k].to_vec(), d[k + 1..d.len() - 1].to_vec()).is_some() {
            return None;
        }
    }
    Some(m)
}

pub fn interpret(pk: &[Pk], upload: bool) -> Meaning {
    let mut odd = false;
    let refuse = |why, cmd: &str| Meaning { sem: Sem::Refuse(why), odd: false, cmd: cmd.into() };
    let line = match pk.first() {
        Some(Pk::Data(d)) if !d.is_empty() => d.clone(),
        _ => return refuse("no command", ""),
    };
    let line = match line.split_last() {
        Some((b'\n', l)) => l.to_vec(),
        _ => {
            odd = true;
            line
        }
    };
    let words: Vec<&[u8]> = line.split(|&c| c == b' ').collect();
    let cmd = text(words[0]);
    let rest = &pk[1..];
    let any = |cmd: &str| Meaning { sem: Sem::Any, odd: true, cmd: cmd.into() };
    let mk = |sem: Sem, odd: bool, cmd: &str| Meaning { sem, odd, cmd: cmd.into() };
    let args_end = rest.iter().position(|p| *p == Pk::Delim);
    let n = words.len();
    let up_only = ["put-object", "verify-object", "lock", "unlock"];
    match cmd.as_str() {
        "version" => {
            if n >= 2 && words[1] == b"1" {
                mk(Sem::Version, odd || n > 2 || !rest.is_empty(), "version")
            } else {
                refuse("unknown version", "version")
            }
        }
        "quit" => {
            if n > 1 {
                refuse("unknown command", "quit")
            } else {
                mk(Sem::Quit, odd || !rest.is_empty(), "quit")
            }
        }
        c if up_only.contains(&c) && !upload => refuse("not allowed in this mode", c),
        "get-object" if upload => refuse("not allowed in this mode", "get-object"),
        "batch" => {
            if n > 1 {
                return refuse("unknown command", "batch");
            }
            let (a, items) = match args_end {
                Some(k) => (&rest[..k], &rest[k + 1..]),
                None => {
                    return any("batch");
                }
            };
            let a = match parse_args(a) {
                Some(a) => a,
                None => return refuse("malformed arguments", "batch"),
            };
            if let Some(h) = a.get(b"hash-algo" as &[u8]) {
                if h != b"sha256" {
                    return refuse("hash algorithm", "batch");
                }
            }
            let mut v = vec![];
            for p in items {
                let d = match p {
                    Pk::Data(d) => d,
                    _ => return any("batch"),
                };
                if d.last() != Some(&b'\n') {
                    return refuse("malformed item", "batch");
                }
                let q: Vec<&[u8]> = d[..d.len() - 1].split(|&c| c == b' ').collect();
                if q.len() != 2 || !is_oid(q[0]) {
                    return refuse("malformed item", "batch");
                }
                match number(q[1]) {
                    Ok(x) => v.push((text(q[0]), x)),
                    Err(true) => return refuse("malformed item", "batch"),
                    Err(false) => return any("batch"),
                }
            }
            mk(Sem::Batch { items: v }, odd, "batch")
        }
        "put-object" => {
            if n < 2 {
                return refuse("unknown command", "put-object");
            }
            odd |= n > 2;
            let oid = words[1];
            if !is_oid(oid) {
                return refuse("invalid object name", "put-object");
            }
            let (a, data) = match args_end {
                Some(k) => (&rest[..k], &rest[k + 1..]),
                None => {
                    if text(oid) == sha256(b"") {
                        return any("put-object");
                    }
                    return refuse("no payload", "put-object");
                }
            };
            let a = match parse_args(a) {
                Some(a) => a,
                None => return refuse("malformed arguments", "put-object"),
            };
            let size = match a.get(b"size" as &[u8]).map(|x| number(x)) {
                Some(Ok(x)) => x,
                // a number beyond what any object has
                Some(Err(false)) if a[b"size" as &[u8]].iter().all(|c| c.is_ascii_digit()) => return refuse("size", "put-object"),
                Some(Err(false)) => return any("put-object"),
                _ => return refuse("no size", "put-object"),
            };
            let mut all = vec![];
            let mut first = None;
            for p in data {
                match p {
                    Pk::Data(d) => all.extend_from_slice(d),
                    _ => {
                        if first.is_none() {
                            first = Some(all.clone());
                        }
                    }
                }
            }
            let good = |d: &[u8]| d.len() as u64 == size && sha256(d).as_bytes() == oid;
            if first.is_some() {
                // a delimiter inside the payload
                if good(&all) || good(first.as_ref().unwrap()) {
                    return any("put-object");
                }
                return refuse("bad payload", "put-object");
            }
            if !good(&all) {
                return refuse("bad payload", "put-object");
            }
            mk(Sem::Put { oid: text(oid), size }, odd, "put-object")
        }
        "verify-object" => {
            if n < 2 {
                return refuse("unknown command", "verify-object");
            }
            odd |= n > 2;
            if !is_oid(words[1]) {
                return refuse("invalid object name", "verify-object");
            }
            let a = match parse_args(rest) {
                Some(a) => a,
                None => return refuse("malformed arguments", "verify-object"),
            };
            match a.get(b"size" as &[u8]).map(|x| number(x)) {
                Some(Ok(size)) => mk(Sem::Verify { oid: text(words[1]), size }, odd, "verify-object"),
                Some(Err(false)) => any("verify-object"),
                _ => refuse("no size", "verify-object"),
            }
        }
        "get-object" => {
            if n < 2 {
                return refuse("unknown command", "get-object");
            }
            odd |= n > 2;
            if !is_oid(words[1]) {
                return refuse("invalid object name", "get-object");
            }
            if parse_args(rest).is_none() {
                return refuse("malformed arguments", "get-object");
            }
            mk(Sem::Get { oid: text(words[1]) }, odd, "get-object")
        }
        "lock" => {
            if n > 1 {
                return refuse("unknown command", "lock");
            }
            let a = match parse_args(rest) {
                Some(a) => a,
                None => return refuse("malformed arguments", "lock"),
            };
            match (a.get(b"path" as &[u8]), a.get(b"refname" as &[u8])) {
                (Some(p), Some(_)) => mk(Sem::Lock { path: p.clone() }, odd || p.len() > 60000 || p.is_empty(), "lock"),
                _ => refuse("path or refname missing", "lock"),
            }
        }
        "unlock" => {
            if n < 2 {
                return refuse("unknown command", "unlock");
            }
            odd |= n > 2 || parse_args(rest).is_none();
            if !is_oid(words[1]) {
                return refuse("not a lock id", "unlock");
            }
            mk(Sem::Unlock { id: text(words[1]) }, odd, "unlock")
        }
        "list-lock" => {
            if n > 1 {
                return refuse("unknown command", "list-lock");
            }
            let a = match parse_args(rest) {
                Some(a) => a,
                None => return refuse("malformed arguments", "list-lock"),
            };
            let limit = match a.get(b"limit" as &[u8]).map(|x| number(x)) {
                None => 100,
                Some(Ok(0)) => return refuse("limit 0", "list-lock"),
                Some(Ok(x)) => x.min(100),
                Some(Err(true)) => return refuse("malformed limit", "list-lock"),
                Some(Err(false)) => return any("list-lock"),
            };
            let path = a.get(b"path" as &[u8]).cloned();
            let cursor = a.get(b"cursor" as &[u8]).cloned();
            if let (Some(p), Some(c)) = (&path, &cursor) {
                if crate::client::lock_id(p).as_bytes() < &c[..] {
                    // nothing of this listing is left to show, or all of it
                    return any("list-lock");
                }
                return mk(Sem::List { limit, path, cursor: None }, odd, "list-lock");
            }
            mk(Sem::List { limit, path, cursor }, odd, "list-lock")
        }
        c => refuse("unknown command", c),
    }
}

// ------------------------------------------------------------------------
// judging the history

pub struct Rq {
    pub sess: usize,
    pub k: usize,
    pub req: Req,
    pub m: Meaning,
    /// the server has all of it
    pub from: u64,
    /// the answer is out, or the session is over
    pub to: u64,
    pub ans: Option<Answer>,
    /// first byte read
    pub begun: u64,
    pub excused: bool,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub id: String,
    pub path: Vec<u8>,
    pub rec: Rec,
    pub whose: Option<String>,
}

pub fn parse_time(t: &str) -> Option<i64> {
    let b = t.as_bytes();
    let (neg, t) = match b.first()? {
        b'-' => (true, &t[1..]),
        b'+' => (false, &t[1..]),
        _ => (false, t),
    };
    let dash = t.find('-')?;
    let y: i64 = t[..dash].parse().ok()?;
    let y = if neg { -y } else { y };
    let r = &t[dash + 1..];
    let rb = r.as_bytes();
    if rb.len() < 15 || rb[2] != b'-' || rb[5] != b'T' || rb[8] != b':' || rb[11] != b':' {
        return None;
    }
    let n = |a: usize| r.get(a..a + 2)?.parse::<i64>().ok();
    let (mo, d, h, mi, s) = (n(0)?, n(3)?, n(6)?, n(9)?, n(12)?);
    let z = &r[14..];
    if z != "Z" && z != "+00:00" {
        return None;
    }
    let (yy, mm) = if mo <= 2 { (y - 1, mo + 9) } else { (y, mo - 3) };
    let era = yy.div_euclid(400);
    let yoe = yy.rem_euclid(400);
    let doy = (153 * mm + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    Some((era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + s)
}

fn describe(a: &Answer) -> Result<Entry, String> {
    let g = |k: &str| a.arg(k).ok_or(format!("no {} in the answer", k));
    let t = text(&g("locked-at")?);
    Ok(Entry {
        id: text(&g("id")?),
        path: g("path")?,
        rec: Rec { time: parse_time(&t).ok_or(format!("locked-at {:?}", t))?, owner: text(&g("ownername")?) },
        whose: None,
    })
}

fn parse_list(a: &Answer) -> Result<Vec<Entry>, String> {
    let mut v: Vec<Entry> = vec![];
    let mut have: Vec<u8> = vec![];
    for d in &a.data {
        let d = d.strip_suffix(b"\n").ok_or(format!("line {:?} has no newline", text(d)))?;
        let sp = d.iter().position(|&c| c == b' ').ok_or(format!("line {:?}", text(d)))?;
        let key = text(&d[..sp]);
        let rest = &d[sp + 1..];
        if key == "lock" {
            v.push(Entry { id: text(rest), path: vec![], rec: Rec { time: 0, owner: String::new() }, whose: None });
            have.push(0);
            continue;
        }
        let sp = rest.iter().position(|&c| c == b' ').ok_or(format!("line {:?}", text(d)))?;
        let (id, val) = (text(&rest[..sp]), &rest[sp + 1..]);
        let e = v.last_mut().ok_or(format!("line {:?} before any lock", text(d)))?;
        if e.id != id {
            return Err(format!("{} of {} among the lines of {}", key, id, e.id));
        }
        let h = have.last_mut().unwrap();
        let bit = match key.as_str() {
            "path" => {
                e.path = val.to_vec();
                1
            }
            "locked-at" => {
                e.rec.time = parse_time(&text(val)).ok_or(format!("locked-at {:?}", text(val)))?;
                2
            }
            "ownername" => {
                e.rec.owner = text(val);
                4
            }
            "owner" => {
                e.whose = Some(text(val));
                8
            }
            _ => 0,
        };
        if *h & bit != 0 {
            return Err(format!("two {} lines for {}", key, id));
        }
        *h |= bit;
    }
    for (e, h) in v.iter().zip(have.iter()) {
        if h & 7 != 7 {
            return Err(format!("lock {} is not fully described", e.id));
        }
    }
    Ok(v)
}

pub fn user_name(u: u32) -> String {
    let u = &USERS[u as usize];
    match u.name {
        Some(n) => n.bytes().map(|b| b as char).collect(),
        None => format!("uid {}", u.uid),
    }
}

fn present_at(w: &World, oid: &str, step: u64) -> Option<u64> {
    w.truth.objs.get(oid).and_then(|t| t.iter().take_while(|e| e.0 <= step).last().and_then(|e| e.1))
}

/// Every state of the object during [a, b].
fn states(w: &World, oid: &str, a: u64, b: u64) -> Vec<Option<u64>> {
    let mut v = vec![present_at(w, oid, a)];
    if let Some(t) = w.truth.objs.get(oid) {
        for e in t {
            if e.0 > a && e.0 <= b {
                v.push(e.1);
            }
        }
    }
    v
}

fn hard(a: &Act) -> bool {
    matches!(a, Act::Errno(_) | Act::Broken(_) | Act::Flip(_))
}

fn show(b: &[u8]) -> String {
    let t = text(&b[..b.len().min(70)]);
    format!("{:?}", t)
}

pub fn requests_of(w: &World, i: usize) -> Vec<Rq> {
    let s = &w.s[i];
    let upload = s.spec.args.last().map(|x| x == "upload").unwrap_or(false);
    let c = &s.client;
    let mut v = vec![];
    for (k, req) in scan_requests(&c.input).into_iter().enumerate() {
        let m = interpret(&req.pk, upload);
        let begun = step_of(&c.read_marks, req.start + 1).unwrap_or(u64::MAX);
        let from = step_of(&c.read_marks, req.end).unwrap_or(u64::MAX);
        let ans = c.answers.get(k).cloned();
        let to = match &ans {
            Some(a) => step_of(&c.out_marks, a.end).unwrap_or(s.end_step),
            None => s.end_step,
        };
        let inlfs = |cl: Class| !matches!(cl, Class::In | Class::Out | Class::Err | Class::Clock);
        let excused = s.hits.iter().any(|h| hard(&h.act) && inlfs(h.class) && h.step >= begun && h.step <= to)
            || w.truth.natural.iter().any(|n| n.1 == i && n.0 >= begun && n.0 <= to);
        let quit = m.cmd == "quit" && matches!(m.sem, Sem::Quit);
        v.push(Rq { sess: i, k, req, m, from, to, ans, begun, excused });
        if quit {
            break;
        }
    }
    v
}

fn prop_of(cmd: &str) -> &'static str {
    match cmd {
        "put-object" => "C02",
        "get-object" => "C02",
        "batch" | "verify-object" => "C05",
        "lock" | "unlock" => "C07",
        "list-lock" => "C08",
        _ => "C10",
    }
}

pub fn evaluate(w: &mut World) {
    if w.harness_error.is_some() {
        return;
    }
    let n = w.s.len();
    let mut all: Vec<Vec<Rq>> = vec![];
    for i in 0..n {
        if w.s[i].spec.prog == Prog::Transfer && !matches!(w.s[i].state, State::Waiting) {
            all.push(requests_of(w, i));
        } else {
            all.push(vec![]);
        }
    }
    for i in 0..n {
        if matches!(w.s[i].state, State::Waiting) || matches!(w.s[i].spec.prog, Prog::Actor | Prog::Pager) {
            continue;
        }
        ends(w, i, &all[i]);
        if w.s[i].spec.prog == Prog::Transfer {
            answers(w, i, &all[i]);
            effects(w, i, &all[i]);
            leftovers(w, i);
            touches(w, i, &all[i]);
        }
    }
    durable(w, &all);
    locks(w, &all);
    access(w);
    crate::gitrepo::judge(w);
    for v in &all {
        w.truth.requests += v.len() as u64;
        w.truth.answers += v.iter().filter(|r| r.ans.is_some()).count() as u64;
    }
}

fn operation(w: &World, i: usize) -> String {
    w.s[i].spec.args.last().cloned().unwrap_or_default()
}

/// How a session ended (C14, C10, C16).
fn ends(w: &mut World, i: usize, rs: &[Rq]) {
    let s = &w.s[i];
    let st = s.state.clone();
    let err = String::from_utf8_lossy(&s.stderr).into_owned();
    let shown: String = err.chars().take(200).collect();
    let who = format!("session {} ({} {})", i, format!("{:?}", s.spec.prog).to_lowercase(), operation(w, i));
    let e = match st {
        State::Done(e) => e,
        _ => {
            if !w.stop && w.violations.is_empty() {
                w.harness_error = Some(format!("{} never ended", who));
            }
            return;
        }
    };
    let transfer = s.spec.prog == Prog::Transfer;
    // a panic of the other tools is a failure with a message
    let mine: &[&str] = match s.spec.prog {
        Prog::Transfer => &["C14"],
        Prog::GitAt => &["C19"],
        _ => &["C20"],
    };
    let locking = rs.iter().any(|r| r.ans.is_none() && r.req.complete && (r.m.cmd == "lock" || r.m.cmd == "unlock"));
    let bad = |w: &mut World, kind: &str, msg: String| {
        for p in mine {
            w.violate(p, kind, msg.clone());
        }
        if locking {
            w.violate("C07", kind, msg.clone());
        }
    };
    let panicked = err.contains("panicked at");
    match &e {
        End::Abort => bad(w, "abort", format!("{} aborts: {}", who, shown)),
        End::Exit(101) if transfer => bad(w, "panic", format!("{} panics: {}", who, shown)),
        _ if panicked && transfer => bad(w, "panic", format!("{} panics: {}", who, shown)),
        End::Signal(sig) => {
            if !(*sig == libc::SIGPIPE && w.s[i].out_failed_step.is_some()) {
                bad(w, "signal", format!("{} dies of signal {}: {}", who, sig, shown));
            }
        }
        _ => (),
    }
    if !transfer {
        return;
    }
    let s = &w.s[i];
    let c = &s.client;
    let op_ok = matches!(operation(w, i).as_str(), "upload" | "download");
    let in_err = s.in_broken.is_some()
        || c.closed.map(|e| e != 0).unwrap_or(false)
        || s.hits.iter().any(|h| h.class == Class::In && hard(&h.act));
    let out_err = s.out_failed_step.is_some();
    let complete = rs.iter().filter(|r| r.req.complete).count();
    let quit = rs.last().map(|r| r.req.complete && r.m.sem == Sem::Quit).unwrap_or(false);
    let broken = rs.iter().any(|r| r.req.bad);
    let partial = rs.iter().any(|r| !r.req.complete && !r.req.bad);
    let nans = c.answers.len();
    let dangling = c.cur.is_some() || c.parsed < c.out.len();
    let greeting = c.greeting.clone();
    let setup_hit = s.hits.iter().any(|h| hard(&h.act) && h.class != Class::Clock && h.class != Class::Err)
        || w.truth.natural.iter().any(|x| x.1 == i);
    let code = match &e {
        End::Exit(c) => *c,
        _ => {
            if nans > complete + if broken || partial { 1 } else { 0 } {
                let m = format!("{}: {} answers for {} complete requests", who, nans, complete);
                w.violate("C10", "too many answers", m);
            }
            return;
        }
    };
    if code == 101 || panicked {
        return;
    }
    let deaf = w.s[i].hits.iter().any(|h| h.class == Class::Err);
    if code != 0 && err.trim().is_empty() && !deaf {
        status(w, "silent failure", format!("{} exits {} without a message", who, code));
    }
    let greeted = greeting.is_some();
    if !matches!(code, 0 | 2 | 4) {
        w.violate("C22", "status", format!("{} exits {}: {}", who, code, shown));
    }
    if !op_ok {
        if code == 0 {
            status(w, "exit status", format!("{} exits 0 for an unknown operation", who));
        }
        return;
    }
    if out_err {
        if code == 0 {
            w.violate("C16", "exit status", format!("{} exits 0 although its output failed", who));
            status(w, "exit status", format!("{} exits 0 although its output failed", who));
        }
        return;
    }
    if !greeted {
        if code == 0 || !setup_hit {
            let m = format!("{} exits {} without a greeting: {}", who, code, shown);
            w.violate("C14", "no greeting", m.clone());
            if code != 0 {
                w.violate("C07", "no greeting", m);
            }
        }
        return;
    }
    let g = greeting.unwrap();
    if g.args != vec![b"version=1\n".to_vec()] || g.delim {
        w.violate("C10", "greeting", format!("{}: the greeting is not version=1", who));
    }
    // the last request may be a download that broke off
    let get_broke = rs.get(nans).map(|r| r.m.cmd == "get-object" && r.excused).unwrap_or(false);
    let clean = !in_err && !broken && !partial;
    if code == 0 {
        if in_err && !(quit && nans == complete) {
            status(w, "exit status", format!("{} exits 0 although its input failed", who));
        }
        if clean && (dangling || nans != complete) {
            let m = format!("{} exits 0 having answered {} of {} requests", who, nans, complete);
            w.violate("C10", "answer count", m.clone());
            w.violate("C15", "answer count", m);
        }
        if (broken || partial) && !quit && !in_err {
            status(w, "exit status", format!("{} exits 0 although its input ends inside a request", who));
        }
    } else if clean && nans >= complete && !dangling {
        status(w, "exit status", format!("{} exits {} after answering everything: {}", who, code, shown));
    } else if clean && !get_broke {
        let m = format!("{} gives up (exit {}) with {} of {} requests answered: {}", who, code, nans, complete, shown);
        w.violate("C10", "gave up", m.clone());
        w.violate("C14", "gave up", m.clone());
        if rs.get(nans).map(|r| r.m.cmd == "lock" || r.m.cmd == "unlock").unwrap_or(false) {
            w.violate("C07", "gave up", m);
        }
    }
    if (broken || partial) && !in_err {
        let max = complete + 1;
        if (nans < complete && !get_broke) || nans > max || dangling && !get_broke {
            let m = format!("{}: {} answers for {} complete requests (dangling output: {})", who, nans, complete, dangling);
            w.violate("C10", "answer count", m.clone());
            if nans > max {
                w.violate("C11", "answer count", m);
            }
        }
    }
    if nans > complete + if broken || partial || in_err { 1 } else { 0 } {
        let m = format!("{}: {} answers for {} complete requests", who, nans, complete);
        w.violate("C10", "too many answers", m);
    }
}

fn answers(w: &mut World, i: usize, rs: &[Rq]) {
    let c = &w.s[i].client;
    let op = operation(w, i);
    if let Some(g) = c.garbled.clone() {
        w.violate("C10", "garbled output", format!("session {}: {}", i, g));
        w.violate("C18", "garbled output", format!("session {}: {}", i, g));
        if rs.get(w.s[i].client.answers.len()).map(|r| r.m.cmd == "get-object").unwrap_or(false) {
            w.violate("C04", "garbled output", format!("session {}: {}", i, g));
        }
        return;
    }
    let nans = w.s[i].client.answers.len();
    if op != "upload" && op != "download" {
        if nans > 0 {
            w.violate("C12", "unknown operation", format!("session {} ({}) answers requests", i, op));
        }
        return;
    }
    let mut lines = 0usize;
    for r in rs {
        if let Some(a) = &r.ans {
            lines += 1;
            let who = format!("session {} request {} ({} {:?})", i, r.k + 1, r.m.cmd, short_sem(&r.m.sem));
            if let Some(b) = &a.bad {
                w.violate("C10", "malformed answer", format!("{}: {}", who, b));
                continue;
            }
            answer(w, i, r, a, &who, op == "upload");
        }
    }
    let _ = lines;
    if op == "upload" {
        // contents of stored objects in the output of an upload session
        let keys: Vec<(String, Vec<u8>)> = w
            .truth
            .contents
            .iter()
            .filter(|(_, d)| d.len() >= 24)
            .map(|(k, d)| (k.clone(), d[..24].to_vec()))
            .collect();
        for (oid, head) in keys {
            if head.iter().all(|&c| c == 0) || head.starts_with(b"v1:") {
                continue;
            }
            let out = &w.s[i].client.out;
            if out.len() < 200_000 && out.windows(24).any(|x| x == &head[..]) {
                w.violate("C12", "disclosed", format!("upload session {} prints contents of object {}", i, oid));
            }
        }
    }
}

fn short_sem(s: &Sem) -> String {
    match s {
        Sem::Batch { items } => format!("batch of {}", items.len()),
        Sem::Lock { path } => format!("lock {}", show(path)),
        Sem::List { limit, path, cursor } => {
            format!("list {} {:?} {:?}", limit, path.as_ref().map(|p| show(p)), cursor.as_ref().map(|p| show(p)))
        }
        Sem::Put { oid, size } => format!("put {}… {}", &oid[..8], size),
        Sem::Get { oid } => format!("get {}…", &oid[..8]),
        Sem::Verify { oid, size } => format!("verify {}… {}", &oid[..8], size),
        x => format!("{:?}", x),
    }
}

fn answer(w: &mut World, i: usize, r: &Rq, a: &Answer, who: &str, upload: bool) {
    let st = a.status;
    // (what the program did not get to read because its input failed did not arrive)
    if r.req.bad || !r.req.complete || r.from == u64::MAX {
        if st < 400 {
            let m = format!("{} did not arrive completely but is answered {}", who, st);
            w.violate("C11", "success for incomplete request", m.clone());
            if r.m.cmd == "put-object" {
                w.violate("C03", "success for incomplete request", m);
            }
        }
        return;
    }
    let wrong = |w: &mut World, p: &str, kind: &str, m: String| w.violate(p, kind, m);
    match &r.m.sem {
        Sem::Refuse(why) => {
            if st < 400 {
                let m = format!("{}: answered {} although: {}", who, st, why);
                match (*why, r.m.cmd.as_str()) {
                    ("not allowed in this mode", _) => wrong(w, "C12", "not refused", m),
                    ("hash algorithm", _) => wrong(w, "C05", "not refused", m),
                    ("bad payload", _) | ("no payload", _) => wrong(w, "C03", "not refused", m),
                    ("no size", "put-object") => {
                        wrong(w, "C03", "not refused", m.clone());
                        wrong(w, "C10", "not refused", m)
                    }
                    ("invalid object name", _) | ("not a lock id", _) => wrong(w, "C13", "not refused", m),
                    _ => wrong(w, "C10", "not refused", m),
                }
            }
            return;
        }
        Sem::Any => return,
        _ => (),
    }
    if r.m.odd && st >= 400 {
        // refusing is fine, but not with a claim that is untrue; nothing to say
        return;
    }
    let lenient = r.excused || meets_damage(w, &r.m);
    let ok: &[u32] = match &r.m.sem {
        Sem::Verify { .. } => &[200, 404, 409],
        Sem::Get { .. } => &[200, 404],
        Sem::Lock { .. } => &[201, 409],
        Sem::Unlock { .. } => &[200, 404],
        Sem::List { path: Some(_), .. } => &[200, 404],
        _ => &[200],
    };
    if !ok.contains(&st) && !(lenient && st >= 400) {
        // an error answer to a good request without any fault, or nonsense
        let msg: String = text(&a.body()).chars().take(120).collect();
        let m = format!("{}: answered {} {:?} although nothing failed", who, st, msg);
        let p = prop_of(&r.m.cmd);
        wrong(w, p, "refused", m.clone());
        if p != "C10" && st < 400 {
            wrong(w, "C10", "wrong status", m.clone());
        }
        if p != "C10" && st == 400 {
            // a good request was taken for a bad one
            wrong(w, "C10", "misunderstood", m.clone());
        }
        if matches!(p, "C07" | "C08") && st >= 400 {
            // a lock that is held can be described
            wrong(w, "C09", "not described", m.clone());
        }
        if r.m.cmd == "lock" || r.m.cmd == "unlock" {
            // nothing else
        }
        return;
    }
    match &r.m.sem {
        Sem::Get { oid } => {
            let sts = states(w, oid, r.from, r.to);
            if st == 404 && sts.iter().all(|x| x.is_some()) {
                wrong(w, "C04", "404", format!("{}: answered 404 but the object was there all the time", who));
            }
            if st == 200 {
                let body = a.body();
                let size = a.arg("size").and_then(|x| number(&x).ok());
                if size != Some(body.len() as u64) {
                    let m = format!("{}: {} bytes sent, size given as {:?}", who, body.len(), size);
                    wrong(w, "C04", "size", m);
                }
                let damaged = match w.truth.was_damaged.get(oid) {
                    Some(Some(d)) => *d == body,
                    Some(None) => true,
                    None => false,
                };
                if !damaged {
                    if sha256(&body) != *oid {
                        let m = format!("{}: the {} bytes sent are not the object", who, body.len());
                        wrong(w, "C04", "contents", m.clone());
                        if sts.iter().all(|x| x.is_some()) && acked_before(w, oid, r.from) {
                            wrong(w, "C02", "contents", m);
                        }
                    } else if sts.iter().all(|x| x.is_none()) {
                        wrong(w, "C04", "phantom", format!("{}: sent although never stored", who));
                    }
                }
            }
        }
        Sem::Verify { oid, size } => {
            if w.truth.damaged_dir(oid) {
                return;
            }
            let sts = states(w, oid, r.from, r.to);
            let can = match st {
                200 => sts.contains(&Some(*size)),
                404 => sts.contains(&None),
                409 => sts.iter().any(|x| x.is_some() && *x != Some(*size)),
                _ => true,
            };
            if !can {
                let m = format!("{}: answered {} but the object's size was {:?}", who, st, sts);
                wrong(w, "C05", "verify", m.clone());
                if st == 404 && acked_before(w, oid, r.from) {
                    wrong(w, "C02", "verify", m);
                }
            }
        }
        Sem::Batch { items } if st == 200 => {
            if a.data.len() != items.len() {
                let m = format!("{}: {} lines for {} objects", who, a.data.len(), items.len());
                wrong(w, "C05", "batch", m);
                return;
            }
            for (d, (oid, size)) in a.data.iter().zip(items.iter()) {
                let t = text(d);
                let f: Vec<&str> = t.strip_suffix('\n').unwrap_or("").split(' ').collect();
                let (p, m) = if upload { ("noop", "upload") } else { ("download", "noop") };
                if w.truth.damaged_dir(oid) {
                    continue;
                }
                let sts = states(w, oid, r.from, r.to);
                let ok = f.len() == 3 && f[0] == oid && {
                    let said: Option<u64> = f[1].parse().ok();
                    sts.iter().any(|x| match x {
                        Some(n) => f[2] == p && said == Some(*n),
                        None => f[2] == m && said == Some(*size),
                    })
                };
                if !ok {
                    let msg = format!("{}: {:?} for {} {} but the object was {:?}", who, t, oid, size, sts);
                    wrong(w, "C05", "batch", msg.clone());
                    if f.len() == 3 && f[2] == m && acked_before(w, oid, r.from) {
                        wrong(w, "C02", "batch", msg);
                    }
                }
            }
        }
        Sem::Put { oid, size } if st == 200 => {
            let from = step_of(&w.s[i].client.out_marks, a.start + 1).unwrap_or(r.to);
            if present_at(w, oid, from) != Some(*size) && !w.truth.damaged_ever(oid) {
                let m = format!("{}: acknowledged but not in the store", who);
                wrong(w, "C02", "not stored", m);
            }
        }
        _ => (),
    }
}

fn acked_before(w: &World, oid: &str, step: u64) -> bool {
    present_at(w, oid, step).is_some()
}

impl Truth {
    pub fn damaged_ever(&self, oid: &str) -> bool {
        self.was_damaged.contains_key(oid)
    }
    pub fn damaged_dir(&self, oid: &str) -> bool {
        matches!(self.was_damaged.get(oid), Some(None))
    }
}

/// Does the request meet something that was damaged before the run began?
fn meets_damage(w: &World, m: &Meaning) -> bool {
    let t = &w.truth;
    let lock = |p: &[u8]| t.damaged_locks.contains(p);
    match &m.sem {
        Sem::Put { oid, .. } | Sem::Get { oid } | Sem::Verify { oid, .. } => t.damaged_ever(oid),
        Sem::Batch { items } => items.iter().any(|x| t.damaged_ever(&x.0)),
        Sem::Lock { path } => lock(path),
        Sem::Unlock { id } => t.damaged_locks.iter().any(|p| lock_id(p) == *id),
        Sem::List { path: Some(p), .. } => lock(p),
        Sem::List { .. } => !w.sc.repo.damage.is_empty() && !t.damaged_locks.is_empty() || t.stray,
        _ => false,
    }
}

/// Everything a session published, created or removed belongs to a request of
/// its own that arrived completely and asked for it.
fn effects(w: &mut World, i: usize, rs: &[Rq]) {
    let op = operation(w, i);
    let ns: Vec<Ns> = w.truth.ns.iter().filter(|n| n.sess == i && !n.dir).cloned().collect();
    for n in ns {
        let obj = object_name(w, &n.path);
        let lock = lock_name(w, &n.path);
        if obj.is_none() && lock.is_none() {
            continue;
        }
        let fits = |r: &&Rq| r.req.complete && n.step >= r.from && n.step <= r.to;
        let ok = if let Some(oid) = &obj {
            if n.link {
                rs.iter().filter(fits).any(|r| match &r.m.sem {
                    Sem::Put { oid: o, .. } => o == oid,
                    Sem::Any => r.m.cmd == "put-object",
                    _ => false,
                })
            } else {
                // replaced by its own rename is not an unlink; nothing ever removes objects
                false
            }
        } else {
            rs.iter().filter(fits).any(|r| match (&r.m.sem, n.link) {
                (Sem::Lock { .. }, _) => true,
                (Sem::Unlock { .. }, _) => true,
                _ => false,
            })
        };
        if ok {
            continue;
        }
        let during = rs.iter().find(|r| n.step >= r.begun && n.step <= r.to);
        let what = format!(
            "session {} step {}: {} {} which no complete request of it asked for (during: {})",
            i,
            n.step,
            if n.link { "creates" } else { "removes" },
            n.path,
            during.map(|r| format!("{} {}", r.m.cmd, short_sem(&r.m.sem))).unwrap_or_else(|| "nothing".into())
        );
        let mut props: Vec<&str> = vec!["C10"];
        if op != "upload" {
            props = vec!["C12"];
        }
        if rs.iter().any(|r| !r.req.complete) || w.s[i].client.closed.is_some() && rs.is_empty() {
            props.push("C11");
        }
        if let Some(r) = during {
            match r.m.sem {
                Sem::Refuse("bad payload") | Sem::Refuse("no payload") | Sem::Refuse("no size") => props.push("C03"),
                Sem::Refuse("invalid object name") | Sem::Refuse("not a lock id") => props.push("C13"),
                _ => (),
            }
            if r.m.cmd == "put-object" && !r.req.complete {
                props.push("C03");
            }
        }
        if obj.is_some() && !n.link {
            props.push("C02");
        }
        for p in props {
            w.violate(p, "effect without request", what.clone());
        }
    }
}

/// C03: no temporary files of its own are left.
fn leftovers(w: &mut World, i: usize) {
    let s = &w.s[i];
    let end = match &s.state {
        State::Done(End::Exit(_)) => s.end_step,
        _ => return,
    };
    if s.hits.iter().any(|h| h.class == Class::Unlink && hard(&h.act))
        || w.truth.natural.iter().any(|n| n.1 == i && n.3.starts_with("unlink"))
    {
        return;
    }
    if let Some((p, _)) = own_files(w, i, end).into_iter().next() {
        w.violate("C03", "left behind", format!("session {} ends leaving {}", i, p));
    }
}

/// The files that session made, and that still exist, under names of neither objects nor locks.
fn own_files(w: &World, i: usize, end: u64) -> BTreeMap<String, Ino> {
    let mut live: BTreeMap<String, Ino> = BTreeMap::new();
    for n in &w.truth.ns {
        if n.step > end {
            break;
        }
        if n.link && !n.dir {
            if n.sess == i && object_name(w, &n.path).is_none() && lock_name(w, &n.path).is_none() {
                live.insert(n.path.clone(), n.ino);
            } else if live.get(&n.path).map(|x| *x != n.ino).unwrap_or(false) {
                live.remove(&n.path);
            }
        } else if !n.link {
            live.remove(&n.path);
        }
    }
    live
}

/// Where a session reached (C12, C13) and what it did after its output failed
/// (C16).
fn touches(w: &mut World, i: usize, rs: &[Rq]) {
    let op = operation(w, i);
    let failed = w.s[i].out_failed_step;
    let mut own: BTreeSet<String> = BTreeSet::new();
    let list: Vec<Touch> = w.truth.touches.iter().filter(|t| t.sess == i).cloned().collect();
    for t in &list {
        let inl = crate::sys::in_lfs(&t.path);
        let mutates = t.mutation && t.ok;
        if t.greeted {
            let harmless = !mutates
                && ["/etc/", "/dev/", "/proc/", "/usr/share/zoneinfo"].iter().any(|p| t.path.starts_with(p))
                || t.path.starts_with("/dev/");
            if !inl && !harmless {
                let m = format!("session {} step {}: {} {} outside the lfs directory", i, t.step, t.kind, t.path);
                w.violate("C13", "outside", m);
            }
            if mutates && op != "upload" && inl {
                let m = format!("{} session {} step {}: {} {}", op, i, t.step, t.kind, t.path);
                w.violate("C12", "writes", m);
            }
        }
        if mutates && (t.kind == "open" || t.kind == "link" || t.kind == "rename-to" || t.kind == "mkdir") {
            own.insert(t.path.clone());
        }
        if let Some(f) = failed {
            if t.step > f && inl && !own.contains(&t.path) {
                let m = format!("session {} step {}: {} {} after its output failed at step {}", i, t.step, t.kind, t.path, f);
                w.violate("C16", "went on", m);
            }
        }
        // unlock opens and removes nothing but the named lock
        if let Some(r) = rs
            .iter()
            .find(|r| r.m.cmd == "unlock" && t.step >= r.from && t.step > prev_to(rs, r.k) && t.step <= r.to && r.req.complete) {
            let is_file = base(&t.path).len() > 0
                && !w.fs.find(&t.path).map(|x| w.fs.is_dir(x)).unwrap_or(false)
                && t.path != w.lfs
                && !t.path.ends_with("/locks")
                && !t.path.ends_with("/lfs")
                && !t.path.ends_with("/tmp");
            if is_file && t.ok && !own.contains(&t.path) {
                let named = match &r.m.sem {
                    Sem::Unlock { id } => base(&t.path) == id,
                    Sem::Refuse("not allowed in this mode") => false,
                    _ => false,
                };
                if !named {
                    let m = format!("session {} step {}: {} {} for {}", i, t.step, t.kind, t.path, show(&first_line(r)));
                    w.violate("C13", "wrong file", m);
                }
            }
        }
        // a request with an invalid name opens no file
        if let Some(r) = rs.iter().find(|r| {
            r.m.sem == Sem::Refuse("invalid object name")
                && r.m.cmd != "put-object"
                && t.step >= r.from
                && t.step > prev_to(rs, r.k)
                && t.step <= r.to
        }) {
            if t.ok && t.kind == "open" && !w.fs.find(&t.path).map(|x| w.fs.is_dir(x)).unwrap_or(false) {
                let m = format!("session {} step {}: {} {} for {}", i, t.step, t.kind, t.path, show(&first_line(r)));
                w.violate("C13", "wrong file", m);
            }
        }
    }
}

fn first_line(r: &Rq) -> Vec<u8> {
    match r.req.pk.first() {
        Some(Pk::Data(d)) => d.clone(),
        _ => vec![],
    }
}

/// C02: what was acknowledged stays.
fn durable(w: &mut World, all: &[Vec<Rq>]) {
    let mut acked: BTreeMap<String, (u64, usize)> = BTreeMap::new();
    for rs in all {
        for r in rs {
            if let (Sem::Put { oid, .. }, Some(a)) = (&r.m.sem, &r.ans) {
                if a.status == 200 && a.bad.is_none() && r.req.complete {
                    let e = acked.entry(oid.clone()).or_insert((r.to, r.sess));
                    if r.to < e.0 {
                        *e = (r.to, r.sess);
                    }
                }
            }
        }
    }
    for (oid, (step, sess)) in acked {
        let ev: Vec<(u64, Option<u64>)> = w.truth.objs.get(&oid).cloned().unwrap_or_default();
        for e in ev {
            if e.0 > step && e.1.is_none() {
                let power = w.power_steps.contains(&e.0);
                // a rename over it shows as one event, never as absence
                let m = format!(
                    "object {} acknowledged to session {} at step {} is gone at step {}{}",
                    oid,
                    sess,
                    step,
                    e.0,
                    if power { " (power loss)" } else { "" }
                );
                w.violate("C02", if power { "lost" } else { "removed" }, m);
            }
        }
        if let Some(ino) = find_object(w, &oid) {
            let good = match w.fs.inodes[ino].node {
                Node::File(ref d) => sha256(d) == oid,
                _ => false,
            };
            if !good {
                w.violate("C02", "damaged", format!("object {} acknowledged at step {} is damaged", oid, step));
            }
        }
    }
}

fn find_object(w: &World, oid: &str) -> Option<Ino> {
    w.fs.find(&format!("{}/objects/{}/{}/{}", w.lfs, &oid[..2], &oid[2..4], oid))
}

/// C17: nobody who is entitled is turned away by permissions.
fn access(w: &mut World) {
    let nat = w.truth.natural.clone();
    for (step, sess, errno, what) in nat {
        if errno != -EACCES && errno != -EPERM {
            continue;
        }
        let u = &USERS[w.s[sess].spec.user as usize];
        let shared = match w.sc.repo.shared.as_deref() {
            Some("group") | Some("true") | Some("1") | Some("all") | Some("world") | Some("everybody") | Some("2")
            | Some("0660") | Some("0664") => true,
            _ => false,
        };
        let ingroup = u.gid == 2000 || u.groups.contains(&2000);
        if shared && ingroup && w.truth.damaged.is_empty() && w.truth.damaged_locks.is_empty() {
            let m = format!("step {}: {} is refused ({}): {}", step, user_name(w.s[sess].spec.user), errno, what);
            w.violate("C17", "shut out", m);
        }
    }
}

fn locks(w: &mut World, all: &[Vec<Rq>]) {
    // which path an id belongs to
    let mut by_id: HashMap<String, Vec<u8>> = HashMap::new();
    let mut paths: BTreeSet<Vec<u8>> = BTreeSet::new();
    for rs in all {
        for r in rs {
            if let Sem::Lock { path } = &r.m.sem {
                if r.req.complete && r.from != u64::MAX {
                    paths.insert(path.clone());
                }
            }
            if let Sem::List { path: Some(p), .. } = &r.m.sem {
                if r.req.complete && r.from != u64::MAX {
                    paths.insert(p.clone());
                }
            }
        }
    }
    for p in &paths {
        by_id.insert(lock_id(p), p.clone());
    }
    for (p, id) in &w.truth.ids {
        by_id.insert(id.clone(), p.clone());
    }
    let ids: HashMap<Vec<u8>, String> = w.truth.ids.clone();
    let mut ops: BTreeMap<Vec<u8>, Vec<LOp>> = BTreeMap::new();
    let mut acqs: BTreeMap<Vec<u8>, Vec<Acq>> = BTreeMap::new();
    let mut lists: BTreeMap<Vec<u8>, Vec<LOp>> = BTreeMap::new();
    let mut ident: HashMap<String, Vec<u8>> = HashMap::new();
    let mut vs: Vec<(&'static str, &'static str, String)> = vec![];
    for rs in all {
        let mut chain: Vec<usize> = vec![];
        for (ri, r) in rs.iter().enumerate() {
            if !r.req.complete || r.from == u64::MAX {
                continue;
            }
            let me = user_name(w.s[r.sess].spec.user);
            let who = format!("session {} request {} ({})", r.sess, r.k + 1, short_sem(&r.m.sem));
            let mut check_id = |e: &Entry, vs: &mut Vec<(&'static str, &'static str, String)>| {
                if let Some(p) = ident.get(&e.id) {
                    if *p != e.path {
                        vs.push(("C09", "id", format!("{}: id {} for two paths", who, e.id)));
                    }
                }
                ident.insert(e.id.clone(), e.path.clone());
                if let Some(id) = ids.get(&e.path) {
                    if *id != e.id {
                        vs.push(("C09", "id", format!("{}: path {} has two ids", who, show(&e.path))));
                    }
                }
            };
            let lop = |k: K, maybe: bool, acked: bool| LOp {
                sess: r.sess,
                seq: Some(r.k as u64 * 2),
                start: r.from,
                end: r.to,
                k,
                maybe,
                acked,
                what: format!("{} -> {}", who, r.ans.as_ref().map(|a| a.status.to_string()).unwrap_or("-".into())),
            };
            match &r.m.sem {
                Sem::Lock { path } => {
                    let list = acqs.entry(path.clone()).or_default();
                    let (tmin, tmax) = wall_range(w, r.from, r.to);
                    let a = list.len();
                    match r.ans.as_ref().map(|x| (x.status, x)) {
                        Some((201, x)) => {
                            let mut rec = None;
                            match describe(x) {
                                Ok(e) => {
                                    check_id(&e, &mut vs);
                                    if e.path != *path {
                                        vs.push(("C09", "path", format!("{}: answered for {}", who, show(&e.path))));
                                    }
                                    if e.rec.owner != me {
                                        let m = format!("{}: owner {:?}, asked by {:?}", who, e.rec.owner, me);
                                        vs.push(("C09", "owner", m));
                                    }
                                    if e.rec.time < tmin || e.rec.time > tmax {
                                        let m = format!("{}: locked-at {}, clock {}..{}", who, e.rec.time, tmin, tmax);
                                        vs.push(("C09", "time", m));
                                    }
                                    rec = Some(e.rec);
                                }
                                Err(e) => vs.push(("C09", "description", format!("{}: {}", who, e))),
                            }
                            list.push(Acq { rec, owner: me.clone(), tmin, tmax });
                            ops.entry(path.clone()).or_default().push(lop(K::Acquire(a), false, true));
                        }
                        Some((409, x)) => {
                            let mut rec = None;
                            match describe(x) {
                                Ok(e) => {
                                    check_id(&e, &mut vs);
                                    if e.path != *path {
                                        vs.push(("C09", "path", format!("{}: answered for {}", who, show(&e.path))));
                                    }
                                    rec = Some(e.rec);
                                }
                                Err(e) => vs.push(("C09", "description", format!("{}: {}", who, e))),
                            }
                            ops.entry(path.clone()).or_default().push(lop(K::Held(rec), false, true));
                        }
                        _ => {
                            list.push(Acq { rec: None, owner: me.clone(), tmin, tmax });
                            ops.entry(path.clone()).or_default().push(lop(K::Acquire(a), true, false));
                        }
                    }
                }
                Sem::Unlock { id } => {
                    let path = match by_id.get(id) {
                        Some(p) => p.clone(),
                        None => {
                            if let Some(a) = &r.ans {
                                if a.status < 400 {
                                    vs.push(("C06", "unlock", format!("{}: no such lock, answered {}", who, a.status)));
                                    vs.push(("C13", "unlock", format!("{}: no such lock, answered {}", who, a.status)));
                                }
                            }
                            continue;
                        }
                    };
                    let v = ops.entry(path.clone()).or_default();
                    match r.ans.as_ref().map(|x| (x.status, x)) {
                        Some((200, x)) => {
                            match describe(x) {
                                Ok(e) => {
                                    check_id(&e, &mut vs);
                                    if e.path != path {
                                        vs.push(("C09", "path", format!("{}: answered for {}", who, show(&e.path))));
                                    }
                                    let mut q = lop(K::Held(Some(e.rec)), false, true);
                                    q.seq = Some(r.k as u64 * 2);
                                    v.push(q);
                                }
                                Err(e) => vs.push(("C09", "description", format!("{}: {}", who, e))),
                            }
                            let mut q = lop(K::Release, false, true);
                            q.seq = Some(r.k as u64 * 2 + 1);
                            v.push(q);
                        }
                        Some((404, _)) => v.push(lop(K::Free, false, true)),
                        _ => v.push(lop(K::Release, true, false)),
                    }
                }
                Sem::List { limit, path, cursor } => {
                    let a = match &r.ans {
                        Some(a) => a,
                        None => {
                            chain.clear();
                            continue;
                        }
                    };
                    if let Some(p) = path {
                        chain.clear();
                        if a.status == 404 {
                            lists.entry(p.clone()).or_default().push(lop(K::Free, false, true));
                        } else if a.status == 200 {
                            match parse_list(a) {
                                Ok(v) if v.is_empty() => {
                                    lists.entry(p.clone()).or_default().push(lop(K::Free, false, true))
                                }
                                Ok(v) => {
                                    if v.len() > 1 || v[0].path != *p {
                                        vs.push(("C08", "path filter", format!("{}: shows other locks", who)));
                                    }
                                    check_id(&v[0], &mut vs);
                                    owner_line(w, r, &v[0], &me, &who, &mut vs);
                                    lists
                                        .entry(p.clone())
                                        .or_default()
                                        .push(lop(K::Held(Some(v[0].rec.clone())), false, true));
                                }
                                Err(e) => {
                                    vs.push(("C09", "listing", format!("{}: {}", who, e)));
                                    vs.push(("C10", "listing", format!("{}: {}", who, e)));
                                }
                            }
                        }
                        continue;
                    }
                    if a.status != 200 {
                        chain.clear();
                        continue;
                    }
                    let v = match parse_list(a) {
                        Ok(v) => v,
                        Err(e) => {
                            vs.push(("C09", "listing", format!("{}: {}", who, e)));
                            vs.push(("C08", "listing", format!("{}: {}", who, e)));
                            vs.push(("C10", "listing", format!("{}: {}", who, e)));
                            chain.clear();
                            continue;
                        }
                    };
                    if v.len() as u64 > *limit {
                        let m = format!("{}: {} entries for limit {}", who, v.len(), limit);
                        vs.push(("C08", "limit", m));
                    }
                    for e in &v {
                        check_id(e, &mut vs);
                        owner_line(w, r, e, &me, &who, &mut vs);
                        if w.truth.damaged_locks.contains(&e.path) || w.truth.stray {
                            continue;
                        }
                        if !paths.contains(&e.path) {
                            let m = format!("{}: shows a lock on {} that nobody asked for", who, show(&e.path));
                            vs.push(("C08", "phantom", m.clone()));
                            vs.push(("C06", "phantom", m));
                            continue;
                        }
                        let mut q = lop(K::Held(Some(e.rec.clone())), false, true);
                        q.seq = None;
                        q.start = q.start.max(prev_to(rs, ri));
                        lists.entry(e.path.clone()).or_default().push(q);
                    }
                    let first = cursor.is_none();
                    if first {
                        chain = vec![ri];
                    } else {
                        let prev = chain.last().and_then(|&k| rs[k].ans.as_ref()).and_then(|a| a.arg("next-cursor"));
                        if !chain.is_empty() && prev == *cursor {
                            chain.push(ri);
                        } else {
                            chain.clear();
                            continue;
                        }
                    }
                    let next = a.arg("next-cursor");
                    if next.is_some() && next == *cursor {
                        let m = format!("{}: next-cursor is the cursor of this page, for ever", who);
                        vs.push(("C08", "no progress", m));
                    }
                    if next.is_none() && !chain.is_empty() {
                        // a complete listing
                        let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
                        for &k in &chain {
                            if let Ok(v) = parse_list(rs[k].ans.as_ref().unwrap()) {
                                for e in v {
                                    if !seen.insert(e.path.clone()) {
                                        let m = format!("{}: the listing shows {} twice", who, show(&e.path));
                                        vs.push(("C08", "twice", m));
                                    }
                                }
                            }
                        }
                        let start = rs[chain[0]].from.max(prev_to(rs, chain[0]));
                        for p in &paths {
                            if !seen.contains(p) && !w.truth.damaged_locks.contains(p) {
                                let mut q = lop(K::Free, false, true);
                                q.seq = None;
                                q.start = start;
                                q.what = format!("{}: not in the listing of {} pages", who, chain.len());
                                lists.entry(p.clone()).or_default().push(q);
                            }
                        }
                        chain.clear();
                    }
                    if chain.len() > 2 * paths.len() + 10 {
                        vs.push(("C08", "endless", format!("{}: the listing does not end", who)));
                        chain.clear();
                    }
                }
                _ => (),
            }
        }
    }
    for (p, k, m) in vs {
        w.violate(p, k, m);
    }
    let powers = w.power_steps.clone();
    let none = vec![];
    for path in &paths {
        if w.truth.damaged_locks.contains(path) {
            continue;
        }
        let mut v = ops.get(path).cloned().unwrap_or_default();
        for &p in &powers {
            v.push(LOp {
                sess: 999,
                seq: None,
                start: p,
                end: p,
                k: K::Power,
                maybe: false,
                acked: true,
                what: "power loss".into(),
            });
        }
        let aq = acqs.get(path).unwrap_or(&none);
        let core = v.clone();
        v.extend(lists.get(path).cloned().unwrap_or_default());
        w.truth.lin_ops += v.len() as u64;
        let full = lin::check(&v, aq, true);
        match full {
            Verdict::Ok => continue,
            Verdict::GaveUp => {
                w.truth.lin_gaveup += 1;
                continue;
            }
            Verdict::No => (),
        }
        let mut hist: Vec<&LOp> = v.iter().collect();
        hist.sort_by_key(|o| (o.start, o.end));
        let h: Vec<String> = hist
            .iter()
            .map(|o| format!("[{}..{}] {}{}", o.start, o.end, o.what, if o.maybe { " (may have happened)" } else { "" }))
            .collect();
        let h = h.join("; ");
        let h: String = h.chars().take(1500).collect();
        if lin::check(&core, aq, false) == Verdict::No {
            w.violate("C06", "not linearizable", format!("path {}: {}", show(path), h));
            if wedged(w, &core) {
                w.violate("C07", "wedged", format!("path {}: {}", show(path), h));
            }
        } else if lin::check(&v, aq, false) == Verdict::No {
            w.violate("C08", "listing", format!("path {}: {}", show(path), h));
            w.violate("C06", "listing not linearizable", format!("path {}: {}", show(path), h));
        } else {
            w.violate("C09", "record", format!("path {}: {}", show(path), h));
        }
    }
}

/// Did the final audit trip over it?
fn wedged(w: &World, ops: &[LOp]) -> bool {
    let cut: Vec<LOp> = ops.iter().filter(|o| o.sess >= w.s.len() || !w.s[o.sess].spec.audit).cloned().collect();
    lin::check(&cut, &vec![Acq { rec: None, owner: String::new(), tmin: 0, tmax: 0 }; 200], false) != Verdict::No
}

/// When the answer before this one was complete.
fn prev_to(rs: &[Rq], k: usize) -> u64 {
    if k == 0 {
        0
    } else {
        rs.get(k - 1).map(|r| r.to).unwrap_or(0)
    }
}

fn owner_line(
    w: &World,
    r: &Rq,
    e: &Entry,
    me: &str,
    who: &str,
    vs: &mut Vec<(&'static str, &'static str, String)>,
) {
    let upload = operation(w, r.sess) == "upload";
    let want = if e.rec.owner == me { "ours" } else { "theirs" };
    let ok = match &e.whose {
        Some(x) => x == want,
        None => !upload,
    };
    if !ok {
        let m = format!("{}: lock of {:?} is called {:?} when {:?} asks", who, e.rec.owner, e.whose, me);
        vs.push(("C09", "ours", m));
    }
}
