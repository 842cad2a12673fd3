//! The simulated kernel: what the libc seam (shim.c) calls.

use crate::fs::*;
use crate::oracle;
use crate::rng::*;
use crate::scenario::*;
use crate::world::*;
use libc::{c_char, c_int, c_long, c_void, timespec};
use std::ffi::CStr;

type L = c_long;
const AT_FDCWD: c_int = -100;
const NS: i128 = 1_000_000_000;

enum Gate {
    Go,
    Fail(i64),
    Short(usize),
    Flip(u32),
}

fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    unsafe { CStr::from_ptr(p).to_bytes() }
}

fn idx(c: Class) -> usize {
    c as usize
}

/// Entry of every simulated call: schedule, advance time, inject faults.
fn gate(c: Class) -> Gate {
    let w = w();
    let me = w.cur;
    w.step += 1;
    if w.step > w.sc.step_limit {
        let cls = format!("{:?}", c);
        oracle::step_limit(w, me, &cls);
        w.stop = true;
        w.end_session(me, End::Power);
        unsafe { co_suspend(me as i32) };
        unreachable!();
    }
    w.s[me].counts[idx(c)] += 1;
    let nth = w.s[me].counts[idx(c)];
    // copied out: the list never changes during a run
    let mut todo: Vec<Act> = vec![];
    for f in w.sc.faults.iter() {
        if f.sess == me && f.class == c && f.nth == nth {
            todo.push(f.act.clone());
        }
    }
    for a in &todo {
        if let Act::Pause(k) = a {
            let until = w.yields_total + *k as u64;
            w.s[me].paused_until = until;
            fired(c, a);
            w.note(format!("s{} stalls", me));
        }
    }
    match c {
        Class::Clock | Class::Misc | Class::Err => (),
        Class::Repo if w.sc.repo.git.is_none() => (),
        _ => w.yield_point(),
    }
    let w = crate::world::w();
    if w.s[me].state != State::Ready {
        // ended while it was away (power loss); never resumed in practice
        unsafe { co_suspend(me as i32) };
        unreachable!();
    }
    let t = w.tick;
    w.advance(t);
    let mut g = Gate::Go;
    for a in &todo {
        match a {
            Act::Errno(e) => {
                fired(c, a);
                g = Gate::Fail(*e as i64);
            }
            Act::Broken(e) => {
                fired(c, a);
                match c {
                    Class::In => w.s[me].in_broken = Some(*e),
                    Class::Out => w.s[me].out_broken = Some(*e),
                    _ => g = Gate::Fail(*e as i64),
                }
            }
            Act::Eintr => {
                fired(c, a);
                g = Gate::Fail(libc::EINTR as i64);
            }
            Act::Short(n) => {
                fired(c, a);
                g = Gate::Short(*n as usize);
            }
            Act::Flip(n) => {
                fired(c, a);
                g = Gate::Flip(*n);
            }
            Act::KillBefore => {
                fired(c, a);
                w.end_session(me, End::Killed);
                unsafe { co_suspend(me as i32) };
                unreachable!();
            }
            Act::PowerBefore(cut, d) => {
                fired(c, a);
                w.power = Some((*cut, *d));
                unsafe { co_suspend(me as i32) };
                unreachable!();
            }
            Act::Jump(s) => {
                fired(c, a);
                w.wall += *s as i128 * NS;
                w.fs.now = (w.wall.div_euclid(NS)) as i64;
                w.note(format!("wall clock jumps {} s", s));
                oracle::clock_jump(w);
            }
            _ => (),
        }
    }
    g
}

fn fired(c: Class, a: &Act) {
    let w = w();
    let me = w.cur;
    let name = match a {
        Act::Errno(e) | Act::Broken(e) => format!("{:?}:{}", c, errname(*e)),
        Act::Eintr => format!("{:?}:EINTR", c),
        Act::Short(_) => format!("{:?}:short", c),
        Act::KillBefore => format!("kill before {:?}", c),
        Act::KillAfter => format!("kill after {:?}", c),
        Act::PowerBefore(..) => format!("power loss before {:?}", c),
        Act::PowerAfter(..) => format!("power loss after {:?}", c),
        Act::Jump(s) => format!("clock jump {}", if *s < 0 { "back" } else { "forward" }),
        Act::Pause(_) => format!("stall at {:?}", c),
        Act::Flip(_) => format!("{:?}:bit flip", c),
    };
    *w.fired.entry(name.clone()).or_insert(0) += 1;
    w.note(format!("s{} FAULT {}", me, name));
    let step = w.step;
    w.s[me].hits.push(FaultHit { step, class: c, act: a.clone() });
}

pub fn errname(e: i32) -> String {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EDQUOT => "EDQUOT",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::EROFS => "EROFS",
        libc::EPIPE => "EPIPE",
        libc::ECONNRESET => "ECONNRESET",
        libc::ENOMEM => "ENOMEM",
        libc::EAGAIN => "EAGAIN",
        libc::ESTALE => "ESTALE",
        libc::EMLINK => "EMLINK",
        libc::EPERM => "EPERM",
        libc::EINTR => "EINTR",
        _ => return format!("errno{}", e),
    }
    .into()
}

/// Exit of every simulated call: log it, and faults that strike after it.
fn leave(c: Class, r: i64, what: impl FnOnce() -> String) -> L {
    let w = w();
    let me = w.cur;
    w.hash = fnv(w.hash, &[me as u8, c as u8, r as u8, (r >> 8) as u8]);
    match c {
        Class::Clock | Class::Misc | Class::Err => (),
        Class::Repo if w.sc.repo.git.is_none() => (),
        _ => {
            w.inter = fnv(w.inter, &[me as u8, c as u8, if r < 0 { (-r) as u8 } else { 0 }]);
        }
    }
    let mut text = None;
    if w.git_on() && w.s[me].hits.iter().any(|h| h.step == w.step) {
        let t = what();
        w.git.faulted.push((w.step, me, t.clone()));
        text = Some(t);
    } else if r < 0 && natural(c, -r) && !w.s[me].hits.iter().any(|h| h.step == w.step) {
        let t = what();
        w.truth.natural.push((w.step, me, r, t.clone()));
        text = Some(t);
    } else if w.trace.is_some() {
        text = Some(what());
    }
    if w.trace.is_some() {
        w.note(format!("s{} {} = {}", me, text.unwrap_or_default(), r));
    }
    let nth = w.s[me].counts[idx(c)];
    let mut after: Option<Act> = None;
    for f in w.sc.faults.iter() {
        if f.sess == me && f.class == c && f.nth == nth {
            if let Act::KillAfter | Act::PowerAfter(..) = f.act {
                after = Some(f.act.clone());
            }
        }
    }
    if let Some(a) = after {
        fired(c, &a);
        match a {
            Act::PowerAfter(cut, d) => w.power = Some((cut, d)),
            _ => w.end_session(me, End::Killed),
        }
        unsafe { co_suspend(me as i32) };
        unreachable!();
    }
    r as L
}

/// Errors of the simulated store that nobody injected and that are not the
/// ordinary answers to "is it there".
fn natural(c: Class, e: i64) -> bool {
    !matches!(c, Class::In | Class::Out | Class::Err | Class::Clock | Class::Misc | Class::Repo)
        && ![libc::ENOENT, libc::EEXIST, libc::EINTR].contains(&(e as i32))
}

fn me() -> &'static mut Session {
    let w = w();
    &mut w.s[w.cur]
}

fn cred() -> Cred {
    me().cred.clone()
}

fn getfd(fd: c_int) -> Result<usize, i64> {
    if fd < 0 {
        return Err(EBADF);
    }
    me().fds.get(fd as usize).copied().flatten().ok_or(EBADF)
}

fn alloc_fd(of: usize, min: usize) -> i64 {
    let s = me();
    let mut i = min;
    loop {
        if i >= s.fds.len() {
            s.fds.resize(i + 1, None);
        }
        if s.fds[i].is_none() {
            s.fds[i] = Some(of);
            return i as i64;
        }
        i += 1;
    }
}

fn at(dirfd: c_int) -> Result<Ino, i64> {
    if dirfd == AT_FDCWD {
        return Ok(me().cwd);
    }
    match w().files[getfd(dirfd)?].kind {
        OfKind::Dir(i) => Ok(i),
        _ => Err(ENOTDIR),
    }
}

/// The path a call names, without consequences: used to class the call.
fn name_of(dirfd: c_int, p: &[u8], follow: bool) -> String {
    let w = w();
    let base = match at(dirfd) {
        Ok(b) => b,
        Err(_) => return String::from_utf8_lossy(p).into_owned(),
    };
    match w.fs.resolve(base, p, &Cred::root(), follow) {
        Ok(r) => w.fs.entry_path(r.parent, &r.name),
        Err(_) => {
            // as far as there is something, and the rest as it is written
            for k in (1..p.len()).rev().filter(|k| p[*k] == b'/') {
                if let Ok(r) = w.fs.resolve(base, &p[..k], &Cred::root(), true) {
                    if r.ino.is_some() {
                        return lexical(&w.fs.entry_path(r.parent, &r.name), &p[k + 1..]);
                    }
                }
            }
            lexical(&w.fs.dir_path(base), p)
        }
    }
}

fn lexical(base: &str, p: &[u8]) -> String {
    let p = String::from_utf8_lossy(p).into_owned();
    let full = if p.starts_with('/') { p } else { format!("{}/{}", base, p) };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}

pub fn in_lfs(path: &str) -> bool {
    let l = &w().lfs;
    path == l || (path.starts_with(l.as_str()) && path.as_bytes()[l.len()] == b'/')
}

fn class_for(path: &str, c: Class) -> Class {
    if in_lfs(path) {
        c
    } else {
        Class::Repo
    }
}

fn touch(kind: &'static str, path: &str, mutation: bool, ok: bool) {
    let w = w();
    let me = w.cur;
    let greeted = oracle::greeted(&w.s[me]);
    w.truth.touches.push(Touch { step: w.step, sess: me, kind, path: path.to_string(), mutation, ok, greeted });
}

/// A path outside of the lfs directory was handed to the kernel, whatever
/// comes of it.
fn attempt(kind: &'static str, path: &str) {
    if !in_lfs(path) {
        touch(kind, path, false, false);
    }
}

macro_rules! tri {
    ($e:expr, $c:expr, $what:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return leave($c, -(e as i64), $what),
        }
    };
}

#[no_mangle]
pub extern "C" fn k_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: u32) -> L {
    let p = cstr(p);
    let follow = flags & libc::O_NOFOLLOW == 0;
    let path = name_of(dirfd, p, follow);
    let creat = flags & libc::O_CREAT != 0;
    let c = class_for(&path, if creat { Class::Create } else { Class::Open });
    attempt("open", &path);
    let g = gate(c);
    let what = || format!("open {} {:#o}", path, flags);
    match g {
        // opendir is not interrupted on any file system that programs expect
        Gate::Fail(e) if e == libc::EINTR as i64 && flags & libc::O_DIRECTORY != 0 => (),
        Gate::Fail(e) => {
            touch("open", &path, creat, false);
            return leave(c, -e, what);
        }
        _ => (),
    }
    let w = w();
    let cr = cred();
    let base = tri!(at(dirfd), c, what);
    let r = tri!(w.fs.resolve(base, p, &cr, follow), c, what);
    let acc = flags & libc::O_ACCMODE;
    let want = match acc {
        libc::O_RDONLY => 4,
        libc::O_WRONLY => 2,
        _ => 6,
    };
    let mut created = false;
    let ino = match r.ino {
        Some(i) => {
            if creat && flags & libc::O_EXCL != 0 {
                touch("open", &path, true, false);
                return leave(c, -EEXIST, what);
            }
            if let Node::Symlink(_) = w.fs.inodes[i].node {
                return leave(c, -ELOOP, what);
            }
            if w.fs.is_dir(i) && (want & 2 != 0 || creat) {
                return leave(c, -EISDIR, what);
            }
            if flags & libc::O_DIRECTORY != 0 && !w.fs.is_dir(i) {
                return leave(c, -ENOTDIR, what);
            }
            if !w.fs.allowed(i, &cr, want) {
                touch("open", &path, creat, false);
                return leave(c, -EACCES, what);
            }
            i
        }
        None => {
            if !creat {
                touch("open", &path, false, false);
                return leave(c, -ENOENT, what);
            }
            if r.trailing_slash {
                return leave(c, -EISDIR, what);
            }
            if !w.fs.inodes[r.parent].live {
                return leave(c, -ENOENT, what);
            }
            if !w.fs.allowed(r.parent, &cr, 3) {
                touch("open", &path, true, false);
                return leave(c, -EACCES, what);
            }
            let gid = dir_gid(r.parent, &cr);
            let i = w.fs.new_inode(Node::File(vec![]), mode & !cr.umask & 0o7777, cr.uid, gid, r.parent);
            w.fs.add_link(r.parent, &r.name, i);
            created = true;
            i
        }
    };
    if flags & libc::O_TRUNC != 0 && want & 2 != 0 && !w.fs.data(ino).is_empty() {
        w.fs.set_len(ino, 0);
        oracle::data_changed(w, ino);
    }
    touch("open", &path, created || (flags & libc::O_TRUNC != 0 && want & 2 != 0), true);
    let kind = match w.fs.inodes[ino].node {
        Node::Dir(_) => OfKind::Dir(ino),
        Node::Null => {
            if path.ends_with("random") {
                OfKind::Rand
            } else {
                OfKind::Null
            }
        }
        _ => OfKind::File(ino),
    };
    if let OfKind::Dir(i) | OfKind::File(i) = kind {
        w.fs.inodes[i].opens += 1;
    }
    w.files.push(OpenFile { kind, off: 0, flags, refs: 1, lfs: in_lfs(&path), path: path.clone() });
    let of = w.files.len() - 1;
    let fd = alloc_fd(of, 3);
    if created {
        oracle::linked(w, r.parent, &r.name, ino);
    }
    leave(c, fd, what)
}

fn dir_gid(dir: Ino, cr: &Cred) -> u32 {
    let d = &w().fs.inodes[dir];
    if d.mode & 0o2000 != 0 {
        d.gid
    } else {
        cr.gid
    }
}

#[no_mangle]
pub extern "C" fn k_read(fd: c_int, b: *mut c_void, n: usize) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return leave(Class::Misc, -e, || format!("read({})", fd)),
    };
    let w = w();
    let me_i = w.cur;
    match w.files[of].kind {
        OfKind::In => {
            if !oracle::before_input(w, me_i) {
                // the client waits for an answer that does not come
                w.stop = true;
                w.end_session(me_i, End::Power);
                unsafe { co_suspend(me_i as i32) };
            }
            let g = gate(Class::In);
            let w = crate::world::w();
            let what = || format!("read stdin {}", n);
            match g {
                Gate::Fail(e) => return leave(Class::In, -e, what),
                _ => (),
            }
            if let Some(e) = w.s[me_i].in_broken {
                return leave(Class::In, -(e as i64), what);
            }
            let short = if let Gate::Short(k) = g { k.max(1) } else { usize::MAX };
            let buf = unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) };
            let r = crate::client::server_reads(w, me_i, buf, short);
            leave(Class::In, r, what)
        }
        OfKind::File(ino) => {
            let c = if w.files[of].lfs { Class::Read } else { Class::Repo };
            let g = gate(c);
            let w = crate::world::w();
            let path = w.files[of].path.clone();
            let what = || format!("read {} {}", path, n);
            if let Gate::Fail(e) = g {
                return leave(c, -e, what);
            }
            if w.files[of].flags & libc::O_ACCMODE == libc::O_WRONLY {
                return leave(c, -EBADF, what);
            }
            let off = w.files[of].off;
            if off == 0 && n < w.fs.data(ino).len() && path.starts_with(&w.gitdir) && (path.ends_with("/HEAD") || path.contains("/refs/")) {
                // asked for less than there is: its size was taken before it was replaced
                w.s[me_i].torn = true;
            }
            let r = do_read(ino, b, n, off, &g);
            w.files[of].off += r as u64;
            leave(c, r, what)
        }
        OfKind::Dir(_) => {
            // a damaged store: the same to the program as a disk error
            let c = if w.files[of].lfs { Class::Read } else { Class::Misc };
            leave(c, -EISDIR, || format!("read dir {}", fd))
        }
        OfKind::Null => 0,
        OfKind::Rand => k_random(b, n),
        _ => leave(Class::Misc, -EBADF, || format!("read({})", fd)),
    }
}

fn do_read(ino: Ino, b: *mut c_void, n: usize, off: u64, g: &Gate) -> i64 {
    let w = w();
    let d = w.fs.data(ino);
    let off = (off as usize).min(d.len());
    let mut k = (d.len() - off).min(n);
    if let Gate::Short(s) = g {
        k = k.min((*s).max(1));
    }
    let out = unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) };
    out[..k].copy_from_slice(&d[off..off + k]);
    if let Gate::Flip(x) = g {
        if k > 0 {
            out[*x as usize % k] ^= 1 << (*x >> 16 & 7);
        }
    }
    k as i64
}

#[no_mangle]
pub extern "C" fn k_pread(fd: c_int, b: *mut c_void, n: usize, off: L) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return leave(Class::Misc, -e, || format!("pread({})", fd)),
    };
    let w = w();
    let ino = match w.files[of].kind {
        OfKind::File(i) => i,
        _ => return leave(Class::Misc, -29, || format!("pread({})", fd)),
    };
    let c = if w.files[of].lfs { Class::Read } else { Class::Repo };
    let g = gate(c);
    let w = crate::world::w();
    let what = || format!("pread {} {}@{}", w.files[of].path, n, off);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let r = do_read(ino, b, n, off as u64, &g);
    leave(c, r, what)
}

#[no_mangle]
pub extern "C" fn k_write(fd: c_int, b: *const c_void, n: usize) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return leave(Class::Misc, -e, || format!("write({})", fd)),
    };
    let w = w();
    let me_i = w.cur;
    let buf = unsafe { std::slice::from_raw_parts(b as *const u8, n) };
    match w.files[of].kind {
        OfKind::Out => {
            let g = gate(Class::Out);
            let w = crate::world::w();
            let what = || format!("write stdout {:?}", String::from_utf8_lossy(&buf[..n.min(60)]));
            let mut fail = match g {
                Gate::Fail(e) => Some(e),
                _ => None,
            };
            if let Some(e) = w.s[me_i].out_broken {
                fail = Some(e as i64);
            }
            if let Some(e) = fail {
                if e != libc::EINTR as i64 && w.s[me_i].out_failed_step.is_none() {
                    w.s[me_i].out_failed_step = Some(w.step);
                }
                if e == libc::EPIPE as i64 && w.s[me_i].sigpipe_default {
                    w.end_session(me_i, End::Signal(libc::SIGPIPE));
                    unsafe { co_suspend(me_i as i32) };
                }
                return leave(Class::Out, -e, what);
            }
            let mut k = n;
            let max = w.s[me_i].spec.out_max as usize;
            // pieces this small must not look like a lack of progress
            if max > 0 && w.step < crate::world::PIECES {
                k = k.min(max);
            }
            if let Gate::Short(s) = g {
                k = k.min(s.max(1));
            }
            crate::client::server_writes(w, me_i, &buf[..k]);
            leave(Class::Out, k as i64, what)
        }
        OfKind::PipeW(p) => write_pipe(p, buf),
        OfKind::Err => {
            let g = gate(Class::Err);
            let w = crate::world::w();
            if let Gate::Fail(e) = g {
                return leave(Class::Err, -e, || "write stderr".into());
            }
            let s = &mut w.s[me_i];
            if s.stderr.len() < 4096 {
                s.stderr.extend_from_slice(buf);
            }
            leave(Class::Err, n as i64, || format!("write stderr {:?}", String::from_utf8_lossy(buf)))
        }
        OfKind::File(ino) => {
            let off = if w.files[of].flags & libc::O_APPEND != 0 { w.fs.size(ino) } else { w.files[of].off };
            let r = do_write(of, ino, buf, off);
            if r > 0 {
                crate::world::w().files[of].off = off + r as u64;
            }
            r
        }
        OfKind::Null => n as L,
        _ => leave(Class::Misc, -EBADF, || format!("write({})", fd)),
    }
}

fn do_write(of: usize, ino: Ino, buf: &[u8], off: u64) -> L {
    let c = if w().files[of].lfs { Class::Write } else { Class::Repo };
    let g = gate(c);
    let w = w();
    let path = w.files[of].path.clone();
    let what = || format!("write {} {}@{}", path, buf.len(), off);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    if w.files[of].flags & libc::O_ACCMODE == libc::O_RDONLY {
        return leave(c, -EBADF, what);
    }
    let mut k = buf.len();
    if let Gate::Short(s) = g {
        k = k.min(s.max(1));
    }
    let grow = (off + k as u64).saturating_sub(w.fs.size(ino));
    let room = w.fs.room();
    if grow > room {
        let can = k as u64 - (grow - room).min(k as u64);
        let step = w.step;
        let m = w.cur;
        w.s[m].hits.push(FaultHit { step, class: c, act: Act::Errno(libc::ENOSPC) });
        *w.fired.entry("Write:disk full".into()).or_insert(0) += 1;
        if can == 0 {
            return leave(c, -ENOSPC, what);
        }
        k = can as usize;
    }
    w.fs.write_at(ino, off, &buf[..k]);
    touch("write", &path, true, true);
    oracle::data_changed(w, ino);
    leave(c, k as i64, what)
}

#[no_mangle]
pub extern "C" fn k_pwrite(fd: c_int, b: *const c_void, n: usize, off: L) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return leave(Class::Misc, -e, || format!("pwrite({})", fd)),
    };
    let buf = unsafe { std::slice::from_raw_parts(b as *const u8, n) };
    match w().files[of].kind {
        OfKind::File(i) => do_write(of, i, buf, off as u64),
        _ => leave(Class::Misc, -29, || format!("pwrite({})", fd)),
    }
}

#[no_mangle]
pub extern "C" fn k_lseek(fd: c_int, off: L, wh: c_int) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return -e,
    };
    let w = w();
    let ino = match w.files[of].kind {
        OfKind::File(i) => i,
        OfKind::Dir(i) => i,
        OfKind::Null => return 0,
        _ => return -29,
    };
    let base = match wh {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => w.files[of].off as i64,
        libc::SEEK_END => w.fs.size(ino) as i64,
        _ => return -EINVAL,
    };
    if base + off < 0 {
        return -EINVAL;
    }
    w.files[of].off = (base + off) as u64;
    base + off
}

#[no_mangle]
pub extern "C" fn k_close(fd: c_int) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return -e,
    };
    me().fds[fd as usize] = None;
    let w = w();
    if let OfKind::File(i) | OfKind::Dir(i) = w.files[of].kind {
        let m = w.cur;
        if w.dirlocks.get(&i) == Some(&(m, true)) {
            w.dirlocks.remove(&i);
            for s in w.s.iter_mut() {
                s.blocked = false;
            }
        }
    }
    w.release_file(of);
    leave(Class::Misc, 0, || format!("close {}", fd))
}

fn fill(ino: Ino, st: *mut libc::stat) {
    let w = w();
    let n = &w.fs.inodes[ino];
    unsafe {
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat>());
        let s = &mut *st;
        s.st_dev = 1;
        s.st_ino = ino as u64 + 10;
        s.st_mode = n.mode
            | match n.node {
                Node::File(_) => libc::S_IFREG,
                Node::Dir(_) => libc::S_IFDIR,
                Node::Symlink(_) => libc::S_IFLNK,
                Node::Null => libc::S_IFCHR,
            };
        s.st_nlink = n.nlink as u64;
        s.st_uid = n.uid;
        s.st_gid = n.gid;
        s.st_size = w.fs.size(ino) as i64;
        s.st_blksize = 4096;
        s.st_blocks = (s.st_size + 511) / 512;
        s.st_mtime = n.mtime;
        s.st_atime = n.mtime;
        s.st_ctime = n.mtime;
    }
}

#[no_mangle]
pub extern "C" fn k_stat(dirfd: c_int, p: *const c_char, flags: c_int, st: *mut libc::stat) -> L {
    let p = if p.is_null() { b"" as &[u8] } else { cstr(p) };
    if p.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
        let of = match getfd(dirfd) {
            Ok(o) => o,
            Err(e) => return -e,
        };
        let w = w();
        match w.files[of].kind {
            OfKind::File(i) | OfKind::Dir(i) => {
                let c = if w.files[of].lfs { Class::Stat } else { Class::Repo };
                let path = w.files[of].path.clone();
                let what = || format!("fstat {}", path);
                if let Gate::Fail(e) = gate(c) {
                    return leave(c, -e, what);
                }
                fill(i, st);
                return leave(c, 0, what);
            }
            _ => {
                unsafe {
                    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat>());
                    (*st).st_mode = libc::S_IFIFO | 0o600;
                }
                return 0;
            }
        }
    }
    let follow = flags & libc::AT_SYMLINK_NOFOLLOW == 0;
    let path = name_of(dirfd, p, follow);
    let c = class_for(&path, Class::Stat);
    let g = gate(c);
    let what = || format!("stat {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let base = tri!(at(dirfd), c, what);
    let r = tri!(w.fs.resolve(base, p, &cred(), follow), c, what);
    match r.ino {
        Some(i) => {
            fill(i, st);
            leave(c, 0, what)
        }
        None => leave(c, -ENOENT, what),
    }
}

#[no_mangle]
pub extern "C" fn k_access(dirfd: c_int, p: *const c_char, mode: c_int) -> L {
    let p = cstr(p);
    let path = name_of(dirfd, p, true);
    let c = class_for(&path, Class::Stat);
    let g = gate(c);
    let what = || format!("access {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let cr = cred();
    let base = tri!(at(dirfd), c, what);
    let r = tri!(w.fs.resolve(base, p, &cr, true), c, what);
    match r.ino {
        Some(i) if mode == 0 || w.fs.allowed(i, &cr, mode as u32) => leave(c, 0, what),
        Some(_) => leave(c, -EACCES, what),
        None => leave(c, -ENOENT, what),
    }
}

#[no_mangle]
pub extern "C" fn k_mkdir(dirfd: c_int, p: *const c_char, mode: u32) -> L {
    let p = cstr(p);
    let path = name_of(dirfd, p, false);
    let c = class_for(&path, Class::Mkdir);
    attempt("mkdir", &path);
    let g = gate(c);
    let what = || format!("mkdir {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let cr = cred();
    let base = tri!(at(dirfd), c, what);
    let r = tri!(w.fs.resolve(base, p, &cr, false), c, what);
    if r.ino.is_some() {
        return leave(c, -EEXIST, what);
    }
    if !w.fs.allowed(r.parent, &cr, 3) {
        return leave(c, -EACCES, what);
    }
    let gid = dir_gid(r.parent, &cr);
    let sg = w.fs.inodes[r.parent].mode & 0o2000;
    let i = w.fs.new_inode(Node::Dir(Default::default()), (mode & 0o1777 & !cr.umask) | sg, cr.uid, gid, r.parent);
    w.fs.add_link(r.parent, &r.name, i);
    touch("mkdir", &path, true, true);
    oracle::linked(w, r.parent, &r.name, i);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_unlink(dirfd: c_int, p: *const c_char, flags: c_int) -> L {
    let p = cstr(p);
    let path = name_of(dirfd, p, false);
    let c = class_for(&path, Class::Unlink);
    attempt("unlink", &path);
    let g = gate(c);
    let what = || format!("unlink {}", path);
    if let Gate::Fail(e) = g {
        touch("unlink", &path, true, false);
        return leave(c, -e, what);
    }
    let w = w();
    let cr = cred();
    let base = tri!(at(dirfd), c, what);
    let r = tri!(w.fs.resolve(base, p, &cr, false), c, what);
    let i = match r.ino {
        Some(i) => i,
        None => {
            touch("unlink", &path, true, false);
            return leave(c, -ENOENT, what);
        }
    };
    if !w.fs.allowed(r.parent, &cr, 3) {
        touch("unlink", &path, true, false);
        return leave(c, -EACCES, what);
    }
    if w.fs.inodes[r.parent].mode & 0o1000 != 0
        && cr.uid != 0
        && cr.uid != w.fs.inodes[i].uid
        && cr.uid != w.fs.inodes[r.parent].uid
    {
        return leave(c, -EPERM, what);
    }
    if flags & libc::AT_REMOVEDIR != 0 {
        match w.fs.entries(i) {
            None => return leave(c, -ENOTDIR, what),
            Some(e) if !e.is_empty() => return leave(c, -ENOTEMPTY, what),
            _ => (),
        }
        if r.name == b"." || r.name == b".." {
            return leave(c, -EINVAL, what);
        }
    } else if w.fs.is_dir(i) {
        return leave(c, -EISDIR, what);
    }
    w.fs.remove_link(r.parent, &r.name);
    touch("unlink", &path, true, true);
    oracle::unlinked(w, r.parent, &r.name, i);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_rename(od: c_int, o: *const c_char, nd: c_int, n: *const c_char, flags: u32) -> L {
    let (o, n) = (cstr(o), cstr(n));
    let (po, pn) = (name_of(od, o, false), name_of(nd, n, false));
    attempt("rename", &po);
    attempt("rename", &pn);
    let c = if in_lfs(&po) || in_lfs(&pn) { Class::Rename } else { Class::Repo };
    let g = match gate(c) {
        // another file system
        Gate::Fail(e) => Gate::Fail(e),
        _ if po.starts_with("/mnt/") != pn.starts_with("/mnt/") => Gate::Fail(crate::fs::EXDEV),
        g => g,
    };
    let what = || format!("rename {} -> {}", po, pn);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let cr = cred();
    let ob = tri!(at(od), c, what);
    let nb = tri!(at(nd), c, what);
    let ro = tri!(w.fs.resolve(ob, o, &cr, false), c, what);
    let rn = tri!(w.fs.resolve(nb, n, &cr, false), c, what);
    let i = tri!(ro.ino.ok_or(ENOENT), c, what);
    if !w.fs.allowed(ro.parent, &cr, 3) || !w.fs.allowed(rn.parent, &cr, 3) {
        return leave(c, -EACCES, what);
    }
    if flags & 2 != 0 {
        return leave(c, -EINVAL, what);
    }
    if let Some(d) = rn.ino {
        if flags & 1 != 0 {
            return leave(c, -EEXIST, what);
        }
        if w.fs.is_dir(d) && !w.fs.is_dir(i) {
            return leave(c, -EISDIR, what);
        }
        if !w.fs.is_dir(d) && w.fs.is_dir(i) {
            return leave(c, -ENOTDIR, what);
        }
        if w.fs.entries(d).map(|e| !e.is_empty()).unwrap_or(false) {
            return leave(c, -ENOTEMPTY, what);
        }
    }
    w.fs.move_link(ro.parent, &ro.name, rn.parent, &rn.name);
    touch("rename-from", &po, true, true);
    touch("rename-to", &pn, true, true);
    oracle::unlinked(w, ro.parent, &ro.name, i);
    oracle::linked(w, rn.parent, &rn.name, i);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_link(od: c_int, o: *const c_char, nd: c_int, n: *const c_char, _flags: c_int) -> L {
    let (o, n) = (cstr(o), cstr(n));
    let (po, pn) = (name_of(od, o, false), name_of(nd, n, false));
    attempt("link", &po);
    attempt("link", &pn);
    let c = class_for(&pn, Class::Link);
    let g = gate(c);
    let what = || format!("link {} -> {}", po, pn);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let cr = cred();
    let ob = tri!(at(od), c, what);
    let nb = tri!(at(nd), c, what);
    let ro = tri!(w.fs.resolve(ob, o, &cr, false), c, what);
    let rn = tri!(w.fs.resolve(nb, n, &cr, false), c, what);
    let i = tri!(ro.ino.ok_or(ENOENT), c, what);
    if rn.ino.is_some() {
        return leave(c, -EEXIST, what);
    }
    if w.fs.is_dir(i) {
        return leave(c, -EPERM, what);
    }
    if !w.fs.allowed(rn.parent, &cr, 3) {
        return leave(c, -EACCES, what);
    }
    w.fs.add_link(rn.parent, &rn.name, i);
    touch("link", &pn, true, true);
    oracle::linked(w, rn.parent, &rn.name, i);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_symlink(t: *const c_char, nd: c_int, n: *const c_char) -> L {
    let (t, n) = (cstr(t), cstr(n));
    let pn = name_of(nd, n, false);
    let c = class_for(&pn, Class::Link);
    attempt("symlink", &pn);
    let g = gate(c);
    let what = || format!("symlink {}", pn);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let cr = cred();
    let nb = tri!(at(nd), c, what);
    let rn = tri!(w.fs.resolve(nb, n, &cr, false), c, what);
    if rn.ino.is_some() {
        return leave(c, -EEXIST, what);
    }
    if !w.fs.allowed(rn.parent, &cr, 3) {
        return leave(c, -EACCES, what);
    }
    let i = w.fs.new_inode(Node::Symlink(t.to_vec()), 0o777, cr.uid, cr.gid, rn.parent);
    w.fs.add_link(rn.parent, &rn.name, i);
    touch("symlink", &pn, true, true);
    oracle::linked(w, rn.parent, &rn.name, i);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_readlink(d: c_int, p: *const c_char, b: *mut c_char, n: usize) -> L {
    let p = cstr(p);
    let path = name_of(d, p, false);
    let c = class_for(&path, Class::Stat);
    let g = gate(c);
    let what = || format!("readlink {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let base = tri!(at(d), c, what);
    let r = tri!(w.fs.resolve(base, p, &cred(), false), c, what);
    let i = tri!(r.ino.ok_or(ENOENT), c, what);
    match w.fs.inodes[i].node {
        Node::Symlink(ref t) => {
            let k = t.len().min(n);
            unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, k) };
            leave(c, k as i64, what)
        }
        _ => leave(c, -EINVAL, what),
    }
}

fn do_chmod(i: Ino, mode: u32, c: Class, path: &str, g: Gate) -> L {
    let what = || format!("chmod {} {:o}", path, mode);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let cr = cred();
    let n = &w.fs.inodes[i];
    if cr.uid != 0 && cr.uid != n.uid {
        return leave(c, -EPERM, what);
    }
    let (u, gid) = (n.uid, n.gid);
    let mut m = mode & 0o7777;
    if cr.uid != 0 && m & 0o2000 != 0 && cr.gid != gid && !cr.groups.contains(&gid) {
        m &= !0o2000;
    }
    w.fs.set_attr(i, m, u, gid);
    touch("chmod", path, true, true);
    oracle::attr_changed(w, i, path);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_chmod(d: c_int, p: *const c_char, mode: u32, _flags: c_int) -> L {
    let p = cstr(p);
    let path = name_of(d, p, true);
    let c = class_for(&path, Class::Chmod);
    let g = gate(c);
    let what = || format!("chmod {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let base = tri!(at(d), c, what);
    let r = tri!(w().fs.resolve(base, p, &cred(), true), c, what);
    let i = tri!(r.ino.ok_or(ENOENT), c, what);
    do_chmod(i, mode, c, &path, Gate::Go)
}

#[no_mangle]
pub extern "C" fn k_fchmod(fd: c_int, mode: u32) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return -e,
    };
    match w().files[of].kind {
        OfKind::File(i) | OfKind::Dir(i) => {
            let path = w().files[of].path.clone();
            let c = class_for(&path, Class::Chmod);
            let g = gate(c);
            do_chmod(i, mode, c, &path, g)
        }
        _ => -EINVAL,
    }
}

fn do_chown(i: Ino, u: u32, gid: u32, c: Class, path: &str) -> L {
    let w = w();
    let cr = cred();
    let what = || format!("chown {}", path);
    let n = &w.fs.inodes[i];
    let nu = if u == u32::MAX { n.uid } else { u };
    let ng = if gid == u32::MAX { n.gid } else { gid };
    if cr.uid != 0
        && (nu != n.uid || cr.uid != n.uid || (ng != n.gid && ng != cr.gid && !cr.groups.contains(&ng)))
    {
        return leave(c, -EPERM, what);
    }
    let m = n.mode;
    w.fs.set_attr(i, m, nu, ng);
    touch("chown", path, true, true);
    oracle::attr_changed(w, i, path);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_chown(d: c_int, p: *const c_char, u: u32, gid: u32, flags: c_int) -> L {
    let p = cstr(p);
    let follow = flags & libc::AT_SYMLINK_NOFOLLOW == 0;
    let path = name_of(d, p, follow);
    let c = class_for(&path, Class::Chmod);
    let g = gate(c);
    let what = || format!("chown {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let base = tri!(at(d), c, what);
    let r = tri!(w().fs.resolve(base, p, &cred(), follow), c, what);
    let i = tri!(r.ino.ok_or(ENOENT), c, what);
    do_chown(i, u, gid, c, &path)
}

#[no_mangle]
pub extern "C" fn k_fchown(fd: c_int, u: u32, gid: u32) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return -e,
    };
    match w().files[of].kind {
        OfKind::File(i) | OfKind::Dir(i) => {
            let path = w().files[of].path.clone();
            let c = class_for(&path, Class::Chmod);
            if let Gate::Fail(e) = gate(c) {
                return leave(c, -e, || "fchown".into());
            }
            do_chown(i, u, gid, c, &path)
        }
        _ => -EINVAL,
    }
}

#[no_mangle]
pub extern "C" fn k_truncate(p: *const c_char, n: L) -> L {
    let p = cstr(p);
    let path = name_of(AT_FDCWD, p, true);
    let c = class_for(&path, Class::Write);
    let g = gate(c);
    let what = || format!("truncate {} {}", path, n);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let cr = cred();
    let r = tri!(w.fs.resolve(me().cwd, p, &cr, true), c, what);
    let i = tri!(r.ino.ok_or(ENOENT), c, what);
    if !w.fs.allowed(i, &cr, 2) {
        return leave(c, -EACCES, what);
    }
    w.fs.set_len(i, n.max(0) as u64);
    touch("truncate", &path, true, true);
    oracle::data_changed(w, i);
    leave(c, 0, what)
}

fn fd_file(fd: c_int) -> Result<(usize, Ino), i64> {
    let of = getfd(fd)?;
    match w().files[of].kind {
        OfKind::File(i) | OfKind::Dir(i) => Ok((of, i)),
        _ => Err(EINVAL),
    }
}

#[no_mangle]
pub extern "C" fn k_ftruncate(fd: c_int, n: L) -> L {
    let (of, i) = match fd_file(fd) {
        Ok(x) => x,
        Err(e) => return -e,
    };
    let path = w().files[of].path.clone();
    let c = class_for(&path, Class::Write);
    let g = gate(c);
    let what = || format!("ftruncate {} {}", path, n);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    if w.files[of].flags & libc::O_ACCMODE == libc::O_RDONLY || n < 0 {
        return leave(c, -EINVAL, what);
    }
    let grow = (n as u64).saturating_sub(w.fs.size(i));
    if grow > 1 << 30 {
        return leave(c, -27, what);
    }
    w.fs.set_len(i, n as u64);
    touch("truncate", &path, true, true);
    oracle::data_changed(w, i);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_fallocate(fd: c_int, mode: c_int, off: L, len: L) -> L {
    let (of, i) = match fd_file(fd) {
        Ok(x) => x,
        Err(e) => return -e,
    };
    let path = w().files[of].path.clone();
    let c = class_for(&path, Class::Write);
    let g = gate(c);
    let what = || format!("fallocate {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let end = (off + len).max(0) as u64;
    let sz = w.fs.size(i);
    if end.saturating_sub(sz) > w.fs.room().min(1 << 30) {
        let step = w.step;
        let m = w.cur;
        w.s[m].hits.push(FaultHit { step, class: c, act: Act::Errno(libc::ENOSPC) });
        return leave(c, -ENOSPC, what);
    }
    if mode & 1 == 0 && end > sz {
        w.fs.set_len(i, end);
        oracle::data_changed(w, i);
    }
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_fsync(fd: c_int, _data: c_int) -> L {
    let (of, i) = match fd_file(fd) {
        Ok(x) => x,
        Err(e) => return -e,
    };
    let path = w().files[of].path.clone();
    let c = class_for(&path, Class::Fsync);
    let g = gate(c);
    let what = || format!("fsync {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    w().fs.fsync(i);
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_sync() -> L {
    let c = Class::Fsync;
    if let Gate::Fail(e) = gate(c) {
        return leave(c, -e, || "sync".into());
    }
    w().fs.sync_all();
    leave(c, 0, || "sync".into())
}

fn new_dir(ino: Ino, fd: usize) -> L {
    let s = me();
    s.dirs.push(Some(DirStream { fd, ino, last: None, buf: vec![], pos: 0, eof: false }));
    (s.dirs.len() - 1) as L
}

#[no_mangle]
pub extern "C" fn k_opendir(p: *const c_char) -> L {
    let fd = k_open(AT_FDCWD, p, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
    if fd < 0 {
        return fd;
    }
    k_fdopendir(fd as c_int)
}

#[no_mangle]
pub extern "C" fn k_fdopendir(fd: c_int) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return -e,
    };
    match w().files[of].kind {
        OfKind::Dir(i) => new_dir(i, fd as usize),
        _ => -ENOTDIR,
    }
}

#[no_mangle]
pub extern "C" fn k_readdir(d: L, e: *mut libc::dirent) -> L {
    let (ino, need) = match me().dirs.get(d as usize) {
        Some(Some(s)) => (s.ino, s.pos >= s.buf.len() && !s.eof),
        _ => return -EBADF,
    };
    if need {
        let path = w().fs.dir_path(ino);
        let c = class_for(&path, Class::ReadDir);
        let g = gate(c);
        let what = || format!("getdents {}", path);
        if let Gate::Fail(x) = g {
            return leave(c, -x, what);
        }
        let w = w();
        let salt = w.sc.repo.dir_salt;
        let mut all: Vec<((u64, Vec<u8>), Ino)> = vec![];
        if let Some(ents) = w.fs.entries(ino) {
            for (k, &v) in ents {
                all.push(((mix(salt, fnv(0xcbf2_9ce4_8422_2325, k)) | 1, k.clone()), v));
            }
        }
        all.push(((0, b".".to_vec()), ino));
        all.push(((0, b"..".to_vec()), w.fs.inodes[ino].parent));
        all.sort();
        let batch = (w.sc.repo.dir_batch.max(1)) as usize;
        let ds = me().dirs[d as usize].as_mut().unwrap();
        let mut out = vec![];
        for (key, v) in all {
            if ds.last.as_ref().map(|l| &key > l).unwrap_or(true) && out.len() < batch {
                ds.last = Some(key.clone());
                out.push((key.1, v));
            }
        }
        ds.eof = out.is_empty();
        ds.buf = out;
        ds.pos = 0;
        let n = ds.buf.len() as i64;
        leave(c, n, what);
    }
    let unk = w().sc.repo.dtype_unknown;
    let ds = me().dirs[d as usize].as_mut().unwrap();
    if ds.pos >= ds.buf.len() {
        return 0;
    }
    let (name, i) = ds.buf[ds.pos].clone();
    ds.pos += 1;
    unsafe {
        let e = &mut *e;
        e.d_ino = i as u64 + 10;
        e.d_off = ds.pos as i64;
        e.d_reclen = std::mem::size_of::<libc::dirent>() as u16;
        e.d_type = if unk {
            libc::DT_UNKNOWN
        } else {
            match w().fs.inodes[i].node {
                Node::File(_) => libc::DT_REG,
                Node::Dir(_) => libc::DT_DIR,
                Node::Symlink(_) => libc::DT_LNK,
                Node::Null => libc::DT_CHR,
            }
        };
        for (k, &b) in name.iter().enumerate() {
            e.d_name[k] = b as c_char;
        }
        e.d_name[name.len()] = 0;
    }
    1
}

#[no_mangle]
pub extern "C" fn k_rewinddir(d: L) -> L {
    if let Some(Some(s)) = me().dirs.get_mut(d as usize) {
        s.last = None;
        s.buf.clear();
        s.pos = 0;
        s.eof = false;
    }
    0
}

#[no_mangle]
pub extern "C" fn k_closedir(d: L) -> L {
    let fd = match me().dirs.get_mut(d as usize).and_then(|x| x.take()) {
        Some(s) => s.fd,
        None => return -EBADF,
    };
    k_close(fd as c_int)
}

#[no_mangle]
pub extern "C" fn k_dirfd(d: L) -> L {
    match me().dirs.get(d as usize) {
        Some(Some(s)) => s.fd as L,
        _ => -EBADF,
    }
}

#[no_mangle]
pub extern "C" fn k_getcwd(b: *mut c_char, n: usize) -> L {
    let p = w().fs.dir_path(me().cwd);
    if p.len() + 1 > n {
        return -34;
    }
    unsafe {
        std::ptr::copy_nonoverlapping(p.as_ptr(), b as *mut u8, p.len());
        *b.add(p.len()) = 0;
    }
    p.len() as L + 1
}

#[no_mangle]
pub extern "C" fn k_chdir(p: *const c_char) -> L {
    let w = w();
    match w.fs.resolve(me().cwd, cstr(p), &cred(), true) {
        Ok(r) => match r.ino {
            Some(i) if w.fs.is_dir(i) => {
                me().cwd = i;
                0
            }
            Some(_) => -ENOTDIR,
            None => -ENOENT,
        },
        Err(e) => -e,
    }
}

#[no_mangle]
pub extern "C" fn k_fchdir(fd: c_int) -> L {
    match fd_file(fd) {
        Ok((_, i)) if w().fs.is_dir(i) => {
            me().cwd = i;
            0
        }
        _ => -ENOTDIR,
    }
}

#[no_mangle]
pub extern "C" fn k_realpath(p: *const c_char, b: *mut c_char) -> L {
    let p = cstr(p);
    let path = name_of(AT_FDCWD, p, true);
    let c = class_for(&path, Class::Stat);
    let g = gate(c);
    let what = || format!("realpath {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let r = tri!(w.fs.resolve(me().cwd, p, &cred(), true), c, what);
    if r.ino.is_none() {
        return leave(c, -ENOENT, what);
    }
    let full = w.fs.entry_path(r.parent, &r.name);
    unsafe {
        std::ptr::copy_nonoverlapping(full.as_ptr(), b as *mut u8, full.len());
        *b.add(full.len()) = 0;
    }
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_umask(m: u32) -> L {
    let c = &mut me().cred;
    let old = c.umask;
    c.umask = m & 0o777;
    old as L
}

#[no_mangle]
pub extern "C" fn k_dup(fd: c_int, min: c_int, to: c_int, _ce: c_int) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return -e,
    };
    if to >= 0 {
        if to == fd {
            return to as L;
        }
        if getfd(to).is_ok() {
            k_close(to);
        }
        let s = me();
        if s.fds.len() <= to as usize {
            s.fds.resize(to as usize + 1, None);
        }
        s.fds[to as usize] = Some(of);
        w().files[of].refs += 1;
        return to as L;
    }
    w().files[of].refs += 1;
    alloc_fd(of, (min as usize).max(3))
}

#[no_mangle]
pub extern "C" fn k_fcntl(fd: c_int, cmd: c_int, arg: L) -> L {
    let of = match getfd(fd) {
        Ok(o) => o,
        Err(e) => return -e,
    };
    match cmd {
        libc::F_GETFD => libc::FD_CLOEXEC as L,
        libc::F_SETFD => 0,
        libc::F_GETFL => w().files[of].flags as L,
        libc::F_SETFL => 0,
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => k_dup(fd, arg as c_int, -1, 0),
        _ => -EINVAL,
    }
}

#[no_mangle]
pub extern "C" fn k_ioctl(fd: c_int, req: u64, _arg: L) -> L {
    match getfd(fd) {
        Ok(_) if req == 0x5450 || req == 0x5451 => 0, // FIONCLEX, FIOCLEX
        Ok(_) => -25,
        Err(e) => -e,
    }
}

#[no_mangle]
pub extern "C" fn k_flock(fd: c_int, op: c_int) -> L {
    let (_, i) = match fd_file(fd) {
        Ok(x) => x,
        Err(e) => return -e,
    };
    loop {
        if let Gate::Fail(e) = gate(Class::Misc) {
            return -e;
        }
        let w = w();
        let m = w.cur;
        if op & libc::LOCK_UN != 0 {
            if w.dirlocks.get(&i).map(|x| x.0) == Some(m) {
                w.dirlocks.remove(&i);
                for s in w.s.iter_mut() {
                    s.blocked = false;
                }
            }
            return 0;
        }
        match w.dirlocks.get(&i) {
            Some(&(o, _)) if o != m => {
                if op & libc::LOCK_NB != 0 {
                    return -(libc::EWOULDBLOCK as i64);
                }
                w.s[m].blocked = true;
                w.yield_point();
            }
            _ => {
                w.dirlocks.insert(i, (m, true));
                return 0;
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn k_isatty(fd: c_int) -> L {
    let w = w();
    let term = w.sc.repo.git.as_ref().and_then(|g| g.term.as_ref());
    match getfd(fd) {
        Ok(of) => match w.files[of].kind {
            OfKind::Out => term.map(|t| !t.off).unwrap_or(false) as L,
            OfKind::In | OfKind::Err => term.map(|t| t.others).unwrap_or(false) as L,
            _ => 0,
        },
        Err(_) => 0,
    }
}

/// The environment: what the simulator was started with, and the pagers.
#[no_mangle]
pub extern "C" fn k_getenv(name: *const c_char, found: *mut c_int) -> *const c_char {
    thread_local!(static KEEP: std::cell::RefCell<Vec<std::ffi::CString>> = std::cell::RefCell::new(vec![]));
    let w = w();
    let v = match (w.sc.repo.git.as_ref().and_then(|g| g.term.as_ref()), cstr(name)) {
        (Some(t), b"GIT_PAGER") => t.git_pager.as_ref(),
        (Some(t), b"PAGER") => t.pager.as_ref(),
        (None, n) => match w.sc.repo.env.iter().find(|e| e.0.as_bytes() == n) {
            Some(e) => Some(&e.1),
            None => return std::ptr::null(),
        },
        _ => return std::ptr::null(),
    };
    unsafe { *found = 1 };
    match v {
        Some(v) => KEEP.with(|k| {
            let c = std::ffi::CString::new(v.as_str()).unwrap();
            let p = c.as_ptr();
            k.borrow_mut().push(c);
            p
        }),
        None => std::ptr::null(),
    }
}

#[no_mangle]
pub extern "C" fn k_pipe(out: *mut c_int, flags: c_int) -> L {
    let g = gate(Class::Misc);
    if let Gate::Fail(e) = g {
        return leave(Class::Misc, -e, || "pipe".into());
    }
    let w = w();
    if w.sc.repo.git.as_ref().map(|g| g.term.is_none()).unwrap_or(true) {
        me().refused.push("pipe".into());
        return leave(Class::Misc, -(libc::ENOSYS as i64), || "pipe".into());
    }
    w.pipes.push(Pipe { readers: 1, writers: 1, ..Pipe::default() });
    let k = w.pipes.len() - 1;
    for (j, kind) in [OfKind::PipeR(k), OfKind::PipeW(k)].into_iter().enumerate() {
        w.files.push(OpenFile { kind, off: 0, flags, refs: 1, lfs: false, path: "pipe".into() });
        let fd = alloc_fd(w.files.len() - 1, 3);
        unsafe { *out.add(j) = fd as c_int };
    }
    leave(Class::Misc, 0, || "pipe".into())
}

#[no_mangle]
pub extern "C" fn k_dup_action(from: c_int, to: c_int) {
    me().dups.push((from, to));
}

fn write_pipe(p: usize, buf: &[u8]) -> L {
    let what = || format!("write pipe {:?}", String::from_utf8_lossy(&buf[..buf.len().min(60)]));
    let mut g = gate(Class::Out);
    loop {
        let w = w();
        let me_i = w.cur;
        if let Gate::Fail(e) = g {
            return leave(Class::Out, -e, what);
        }
        if w.pipes[p].readers == 0 {
            if w.s[me_i].out_failed_step.is_none() {
                w.s[me_i].out_failed_step = Some(w.step);
            }
            if w.s[me_i].sigpipe_default {
                w.note(format!("s{} {}: nobody reads", me_i, what()));
                w.end_session(me_i, End::Signal(libc::SIGPIPE));
                unsafe { co_suspend(me_i as i32) };
            }
            return leave(Class::Out, -(libc::EPIPE as i64), what);
        }
        let cap = w.sc.repo.git.as_ref().and_then(|g| g.term.as_ref()).map(|t| t.cap as usize).unwrap_or(65536).max(1);
        let room = cap.saturating_sub(w.pipes[p].data.len());
        if room > 0 {
            let mut k = buf.len().min(room);
            if let Gate::Short(s) = g {
                k = k.min(s.max(1));
            }
            w.pipes[p].data.extend(&buf[..k]);
            w.wake();
            return leave(Class::Out, k as i64, what);
        }
        w.s[me_i].blocked = true;
        w.yield_point();
        if let Gate::Fail(e) = gate(Class::Misc) {
            if e == libc::EINTR as i64 {
                g = Gate::Fail(e);
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn k_utimens(d: c_int, p: *const c_char, ts: *const timespec, _flags: c_int) -> L {
    let p = cstr(p);
    let path = name_of(d, p, true);
    let c = class_for(&path, Class::Chmod);
    let g = gate(c);
    let what = || format!("utimens {}", path);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let w = w();
    let base = tri!(at(d), c, what);
    let r = tri!(w.fs.resolve(base, p, &cred(), true), c, what);
    let i = tri!(r.ino.ok_or(ENOENT), c, what);
    w.fs.inodes[i].mtime = if ts.is_null() { w.fs.now } else { unsafe { (*ts.add(1)).tv_sec } };
    leave(c, 0, what)
}

#[no_mangle]
pub extern "C" fn k_futimens(fd: c_int, ts: *const timespec) -> L {
    match fd_file(fd) {
        Ok((_, i)) => {
            let w = w();
            w.fs.inodes[i].mtime = if ts.is_null() { w.fs.now } else { unsafe { (*ts.add(1)).tv_sec } };
            0
        }
        Err(e) => -e,
    }
}

#[no_mangle]
pub extern "C" fn k_mmap(_a: *mut c_void, n: usize, _prot: c_int, _flags: c_int, fd: c_int, off: L) -> L {
    let (of, i) = match fd_file(fd) {
        Ok(x) => x,
        Err(e) => return -e,
    };
    let path = w().files[of].path.clone();
    let c = class_for(&path, Class::Read);
    let g = gate(c);
    let what = || format!("mmap {} {}@{}", path, n, off);
    if let Gate::Fail(e) = g {
        return leave(c, -e, what);
    }
    let d = w().fs.data(i);
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            return leave(c, -12, what);
        }
        let o = (off as usize).min(d.len());
        let k = (d.len() - o).min(n);
        let g2 = if let Gate::Flip(x) = g { Gate::Flip(x) } else { Gate::Go };
        do_read(i, p, k, o as u64, &g2);
        leave(c, 0, what);
        p as L
    }
}

#[no_mangle]
pub extern "C" fn k_id(which: c_int) -> L {
    let s = me();
    match which {
        0 => s.cred.uid as L,
        1 => s.cred.gid as L,
        2 => s.pid,
        _ => 1,
    }
}

#[no_mangle]
pub extern "C" fn k_getgroups(n: c_int, g: *mut u32) -> L {
    let gr = &me().cred.groups;
    if n == 0 {
        return gr.len() as L;
    }
    if (n as usize) < gr.len() {
        return -EINVAL;
    }
    for (i, &x) in gr.iter().enumerate() {
        unsafe { *g.add(i) = x };
    }
    gr.len() as L
}

#[no_mangle]
pub extern "C" fn k_passwd(byname: c_int, name: *const c_char, uid: u32, pw: *mut libc::passwd, b: *mut c_char, n: usize) -> L {
    let u = USERS.iter().find(|u| match u.name {
        Some(nm) => {
            if byname != 0 {
                cstr(name) == nm.as_bytes()
            } else {
                u.uid == uid
            }
        }
        None => false,
    });
    let u = match u {
        Some(u) => u,
        None => return 0,
    };
    let home = "/home/user";
    let fields: [&str; 5] = [u.name.unwrap(), "x", "", home, "/bin/sh"];
    let need: usize = fields.iter().map(|f| f.len() + 1).sum();
    if need > n {
        return -34;
    }
    unsafe {
        let mut p = b;
        let mut ptrs = vec![];
        for f in fields.iter() {
            std::ptr::copy_nonoverlapping(f.as_ptr(), p as *mut u8, f.len());
            *p.add(f.len()) = 0;
            ptrs.push(p);
            p = p.add(f.len() + 1);
        }
        (*pw).pw_name = ptrs[0];
        (*pw).pw_passwd = ptrs[1];
        (*pw).pw_gecos = ptrs[2];
        (*pw).pw_dir = ptrs[3];
        (*pw).pw_shell = ptrs[4];
        (*pw).pw_uid = u.uid;
        (*pw).pw_gid = u.gid;
    }
    1
}

#[no_mangle]
pub extern "C" fn k_clock(clk: c_int, ts: *mut timespec) -> L {
    let _ = gate(Class::Clock);
    let w = w();
    let t = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | 11 => w.wall,
        _ => w.mono,
    };
    unsafe {
        (*ts).tv_sec = t.div_euclid(NS) as i64;
        (*ts).tv_nsec = t.rem_euclid(NS) as i64;
    }
    if t == w.wall {
        oracle::clock_read(w);
    }
    leave(Class::Clock, 0, || format!("clock {} -> {}", clk, t.div_euclid(NS)))
}

#[no_mangle]
pub extern "C" fn k_sleep(ts: *const timespec) -> L {
    let ns = unsafe { (*ts).tv_sec as i128 * NS + (*ts).tv_nsec as i128 };
    let _ = gate(Class::Misc);
    let w = w();
    w.advance(ns.clamp(0, 3600 * NS) as u64);
    // a sleeping session lets everyone else go first
    let m = w.cur;
    w.s[m].paused_until = w.yields_total + 3;
    w.yield_point();
    0
}

#[no_mangle]
pub extern "C" fn k_random(b: *mut c_void, n: usize) -> L {
    let s = me();
    let out = unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) };
    for x in out.iter_mut() {
        *x = s.rng.next() as u8;
    }
    n as L
}

#[no_mangle]
pub extern "C" fn k_signal(sig: c_int, handler: L) -> L {
    let s = me();
    if sig == libc::SIGPIPE {
        let old = if s.sigpipe_default { 0 } else { 1 };
        // a real handler is treated as ignoring: the write fails with EPIPE
        s.sigpipe_default = handler == 0;
        return old;
    }
    0
}

#[no_mangle]
pub extern "C" fn k_raise(sig: c_int) -> L {
    let w = w();
    let m = w.cur;
    w.end_session(m, End::Signal(sig));
    unsafe { co_suspend(m as i32) };
    0
}

#[no_mangle]
pub extern "C" fn k_exit(code: c_int) -> L {
    let w = w();
    let m = w.cur;
    w.end_session(m, End::Exit(code & 255));
    unsafe { co_suspend(m as i32) };
    unreachable!()
}

#[no_mangle]
pub extern "C" fn k_abort() -> L {
    let w = w();
    let m = w.cur;
    w.end_session(m, End::Abort);
    unsafe { co_suspend(m as i32) };
    unreachable!()
}

#[no_mangle]
pub extern "C" fn k_poll(f: *mut libc::pollfd, n: u64, _timeout: c_int) -> L {
    for i in 0..n as usize {
        unsafe {
            (*f.add(i)).revents = (*f.add(i)).events & (libc::POLLIN | libc::POLLOUT);
        }
    }
    n as L
}

#[no_mangle]
pub extern "C" fn k_statfs() -> L {
    -38
}

#[no_mangle]
pub extern "C" fn k_refused(what: *const c_char) -> L {
    let t = String::from_utf8_lossy(cstr(what)).into_owned();
    let w = w();
    let m = w.cur;
    w.note(format!("s{} {} refused", m, t));
    w.s[m].refused.push(t);
    -38
}

#[no_mangle]
pub extern "C" fn k_unsupported(what: *const c_char) -> L {
    let t = String::from_utf8_lossy(cstr(what)).into_owned();
    let w = w();
    let m = w.cur;
    w.harness_error = Some(format!("the guest called {} which the simulator does not model", t));
    w.stop = true;
    w.end_session(m, End::Abort);
    unsafe { co_suspend(m as i32) };
    unreachable!()
}

/// A program is started: it does nothing but end, as the scenario says.
#[no_mangle]
pub extern "C" fn k_spawn(pid: *mut c_int, argv: *const *const c_char) -> L {
    let g = gate(Class::Misc);
    let mut v = vec![];
    unsafe {
        let mut k = 0;
        while !(*argv.add(k)).is_null() {
            v.push(String::from_utf8_lossy(cstr(*argv.add(k))).into_owned());
            k += 1;
        }
    }
    let what = format!("spawn {:?}", v);
    if let Gate::Fail(e) = g {
        return leave(Class::Misc, -e, || what);
    }
    let s = me();
    if s.spec.prog == Prog::RecentRefs && !w().pipes.is_empty() {
        return start_pager(pid, v, what);
    }
    if s.spec.prog != Prog::GitAt {
        s.refused.push(what.clone());
        return leave(Class::Misc, -(libc::ENOSYS as i64), || what);
    }
    s.spawned.push(v);
    unsafe { *pid = 4000 };
    leave(Class::Misc, 0, || what)
}

/// The pager: its standard input has to be a pipe.
fn start_pager(pid: *mut c_int, argv: Vec<String>, what: String) -> L {
    let w = w();
    let m = w.cur;
    let dups = std::mem::take(&mut w.s[m].dups);
    let input = dups.iter().rev().find(|d| d.1 == 0).and_then(|d| getfd(d.0).ok()).map(|of| w.files[of].kind.clone());
    w.pager.starts += 1;
    w.s[m].spawned.push(argv.clone());
    let p = match (input, w.pager.by) {
        (Some(OfKind::PipeR(p)), None) => p,
        _ => {
            w.s[m].refused.push(what.clone());
            return leave(Class::Misc, -(libc::ENOSYS as i64), || what);
        }
    };
    w.pipes[p].readers += 1;
    // what the child inherits keeps the pipe open
    let open: Vec<usize> = w.s[m].fds.iter().filter_map(|x| *x).collect();
    for of in open {
        if w.files[of].kind == OfKind::PipeW(p) && w.files[of].flags & libc::O_CLOEXEC == 0 {
            w.pipes[p].writers += 1;
        }
    }
    w.pager.by = Some(m);
    w.pager.argv = argv;
    w.pager.pipe = Some(p);
    unsafe { *pid = 4001 };
    leave(Class::Misc, 0, || what)
}

#[no_mangle]
pub extern "C" fn k_waitpid(pid: c_int, status: *mut c_int, options: c_int) -> L {
    if pid == 4001 && w().pager.by == Some(w().cur) && !w().pager.waited {
        loop {
            let g = gate(Class::Misc);
            let w = crate::world::w();
            match g {
                Gate::Fail(e) if e == libc::EINTR as i64 => return leave(Class::Misc, -e, || "waitpid".into()),
                _ => (),
            }
            let m = w.cur;
            let end = w.s.iter().find(|s| s.spec.prog == Prog::Pager).map(|s| s.state.clone());
            if let Some(State::Done(e)) = end {
                w.pager.waited = true;
                if !status.is_null() {
                    unsafe {
                        *status = match e {
                            End::Exit(c) => c << 8,
                            _ => 9,
                        }
                    };
                }
                return leave(Class::Misc, pid as i64, || "waitpid".into());
            }
            if options & libc::WNOHANG != 0 {
                return leave(Class::Misc, 0, || "waitpid, not ended yet".into());
            }
            w.s[m].blocked = true;
            w.yield_point();
        }
    }
    let w = w();
    let s = &w.s[w.cur];
    if pid != 4000 || s.spawned.is_empty() {
        return -(libc::ECHILD as i64);
    }
    let x = w.sc.repo.git.as_ref().map(|g| g.show).unwrap_or(0);
    if !status.is_null() {
        unsafe { *status = if x < 0 { 9 } else { x << 8 } };
    }
    pid as L
}
