//! The simulated file system: the guests' whole world.
//!
//! Inodes, hard links, permissions, umask, setgid directories, open-unlinked
//! files, a quota, and a durability model: namespace changes go to an ordered
//! journal; fsync of any file or directory commits the journal up to that
//! point (as ext4 and XFS do) and makes that file's data durable; a power loss
//! keeps some prefix of the journal that includes everything committed, and
//! for every file whose data was not synced an arbitrary one of: nothing, a
//! prefix, zeros, the last synced contents, or everything.

use crate::rng::Rng;
use std::collections::BTreeMap;

pub type Ino = usize;
pub const ROOT: Ino = 0;

pub const ENOENT: i64 = 2;
pub const EIO: i64 = 5;
pub const EBADF: i64 = 9;
pub const EACCES: i64 = 13;
pub const EEXIST: i64 = 17;
pub const EXDEV: i64 = 18;
pub const ENOTDIR: i64 = 20;
pub const EISDIR: i64 = 21;
pub const EINVAL: i64 = 22;
pub const ENOSPC: i64 = 28;
pub const EPERM: i64 = 1;
pub const ENAMETOOLONG: i64 = 36;
pub const ENOTEMPTY: i64 = 39;
pub const ELOOP: i64 = 40;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Symlink(Vec<u8>),
    Null,
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
    pub nlink: u32,
    pub mtime: i64,
    pub opens: u32,
    pub parent: Ino,
    /// data differs from `synced`
    pub dirty: bool,
    pub synced: Vec<u8>,
    /// object name under which this inode is visible in the store, if any
    pub obj: Option<String>,
    pub live: bool,
}

#[derive(Clone, Debug)]
pub enum Meta {
    Create { ino: Ino, mode: u32, uid: u32, gid: u32, kind: u8, target: Vec<u8> },
    Link { dir: Ino, name: Vec<u8>, ino: Ino },
    Unlink { dir: Ino, name: Vec<u8> },
    Rename { sd: Ino, sn: Vec<u8>, dd: Ino, dn: Vec<u8> },
    Attr { ino: Ino, mode: u32, uid: u32, gid: u32 },
}

#[derive(Clone, Debug)]
pub struct Cred {
    pub uid: u32,
    pub gid: u32,
    pub groups: Vec<u32>,
    pub umask: u32,
}

impl Cred {
    pub fn root() -> Cred {
        Cred { uid: 0, gid: 0, groups: vec![], umask: 0o022 }
    }
    fn in_group(&self, g: u32) -> bool {
        self.gid == g || self.groups.contains(&g)
    }
}

#[derive(Clone)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub journal: Vec<Meta>,
    pub committed: usize,
    pub base: Option<Box<Fs>>,
    pub quota: Option<u64>,
    pub used: u64,
    pub now: i64,
}

pub struct Resolved {
    pub parent: Ino,
    pub name: Vec<u8>,
    pub ino: Option<Ino>,
    pub trailing_slash: bool,
}

impl Fs {
    pub fn new() -> Fs {
        let mut fs = Fs {
            inodes: vec![],
            journal: vec![],
            committed: 0,
            base: None,
            quota: None,
            used: 0,
            now: 0,
        };
        fs.inodes.push(Inode {
            node: Node::Dir(BTreeMap::new()),
            mode: 0o755,
            uid: 0,
            gid: 0,
            nlink: 2,
            mtime: 0,
            opens: 0,
            parent: ROOT,
            dirty: false,
            synced: vec![],
            obj: None,
            live: true,
        });
        fs
    }

    /// Start recording: everything so far is durable.
    pub fn checkpoint(&mut self) {
        for i in self.inodes.iter_mut() {
            if i.dirty {
                if let Node::File(ref d) = i.node {
                    i.synced = d.clone();
                }
                i.dirty = false;
            }
        }
        self.journal.clear();
        self.committed = 0;
        self.base = None;
        let snap = self.clone();
        self.base = Some(Box::new(snap));
    }

    pub fn allowed(&self, ino: Ino, c: &Cred, want: u32) -> bool {
        let i = &self.inodes[ino];
        if c.uid == 0 {
            return want & 1 == 0 || matches!(i.node, Node::Dir(_)) || i.mode & 0o111 != 0;
        }
        let bits = if c.uid == i.uid {
            i.mode >> 6
        } else if c.in_group(i.gid) {
            i.mode >> 3
        } else {
            i.mode
        } & 7;
        bits & want == want
    }

    pub fn is_dir(&self, ino: Ino) -> bool {
        matches!(self.inodes[ino].node, Node::Dir(_))
    }

    pub fn entries(&self, ino: Ino) -> Option<&BTreeMap<Vec<u8>, Ino>> {
        match self.inodes[ino].node {
            Node::Dir(ref e) => Some(e),
            _ => None,
        }
    }

    pub fn lookup(&self, dir: Ino, name: &[u8]) -> Option<Ino> {
        self.entries(dir)?.get(name).copied()
    }

    pub fn data(&self, ino: Ino) -> &[u8] {
        match self.inodes[ino].node {
            Node::File(ref d) => d,
            _ => &[],
        }
    }

    pub fn size(&self, ino: Ino) -> u64 {
        match self.inodes[ino].node {
            Node::File(ref d) => d.len() as u64,
            Node::Dir(_) => 4096,
            Node::Symlink(ref t) => t.len() as u64,
            Node::Null => 0,
        }
    }

    /// Walks `path`; the last component need not exist.
    pub fn resolve(&self, cwd: Ino, path: &[u8], c: &Cred, follow: bool) -> Result<Resolved, i64> {
        self.resolve_depth(cwd, path, c, follow, 0)
    }

    fn resolve_depth(&self, cwd: Ino, path: &[u8], c: &Cred, follow: bool, depth: u32) -> Result<Resolved, i64> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        if depth > 20 {
            return Err(ELOOP);
        }
        let mut cur = if path[0] == b'/' { ROOT } else { cwd };
        let comps: Vec<&[u8]> = path.split(|&b| b == b'/').filter(|s| !s.is_empty()).collect();
        let trailing_slash = path[path.len() - 1] == b'/';
        if comps.is_empty() {
            return Ok(Resolved { parent: cur, name: b".".to_vec(), ino: Some(cur), trailing_slash });
        }
        for (n, comp) in comps.iter().enumerate() {
            let last = n + 1 == comps.len();
            if !self.is_dir(cur) {
                return Err(ENOTDIR);
            }
            if !self.allowed(cur, c, 1) {
                return Err(EACCES);
            }
            if comp.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let next = match *comp {
                b"." => Some(cur),
                b".." => Some(self.inodes[cur].parent),
                name => self.lookup(cur, name),
            };
            if last {
                if let Some(i) = next {
                    if follow || trailing_slash {
                        if let Node::Symlink(ref t) = self.inodes[i].node {
                            return self.resolve_depth(cur, t, c, true, depth + 1);
                        }
                    }
                    if trailing_slash && !self.is_dir(i) {
                        return Err(ENOTDIR);
                    }
                }
                return Ok(Resolved { parent: cur, name: comp.to_vec(), ino: next, trailing_slash });
            }
            let i = next.ok_or(ENOENT)?;
            cur = match self.inodes[i].node {
                Node::Symlink(ref t) => {
                    let r = self.resolve_depth(cur, t, c, true, depth + 1)?;
                    r.ino.ok_or(ENOENT)?
                }
                _ => i,
            };
        }
        unreachable!()
    }

    /// Absolute path of a directory.
    pub fn dir_path(&self, mut ino: Ino) -> String {
        let mut parts = vec![];
        let mut guard = 0;
        while ino != ROOT && guard < 100 {
            let p = self.inodes[ino].parent;
            let name = self
                .entries(p)
                .and_then(|e| e.iter().find(|(_, &v)| v == ino).map(|(k, _)| k.clone()))
                .unwrap_or_else(|| b"(deleted)".to_vec());
            parts.push(String::from_utf8_lossy(&name).into_owned());
            ino = p;
            guard += 1;
        }
        parts.reverse();
        format!("/{}", parts.join("/"))
    }

    pub fn entry_path(&self, dir: Ino, name: &[u8]) -> String {
        let n = String::from_utf8_lossy(name);
        match name {
            b"." => self.dir_path(dir),
            b".." => self.dir_path(self.inodes[dir].parent),
            _ => {
                let d = self.dir_path(dir);
                if d == "/" {
                    format!("/{}", n)
                } else {
                    format!("{}/{}", d, n)
                }
            }
        }
    }

    fn log(&mut self, m: Meta) {
        if self.base.is_some() {
            self.journal.push(m);
        }
    }

    pub fn new_inode(&mut self, node: Node, mode: u32, uid: u32, gid: u32, parent: Ino) -> Ino {
        let (kind, target) = match node {
            Node::File(_) => (0, vec![]),
            Node::Dir(_) => (1, vec![]),
            Node::Symlink(ref t) => (2, t.clone()),
            Node::Null => (3, vec![]),
        };
        let dirty = matches!(node, Node::File(ref d) if !d.is_empty());
        self.inodes.push(Inode {
            nlink: if kind == 1 { 1 } else { 0 },
            node,
            mode,
            uid,
            gid,
            mtime: self.now,
            opens: 0,
            parent,
            dirty,
            synced: vec![],
            obj: None,
            live: true,
        });
        let ino = self.inodes.len() - 1;
        self.log(Meta::Create { ino, mode, uid, gid, kind, target });
        ino
    }

    fn put_entry(&mut self, dir: Ino, name: &[u8], ino: Ino) {
        let now = self.now;
        if let Node::Dir(ref mut e) = self.inodes[dir].node {
            e.insert(name.to_vec(), ino);
        }
        self.inodes[dir].mtime = now;
        self.inodes[ino].nlink += 1;
        if self.is_dir(ino) {
            self.inodes[ino].parent = dir;
        }
    }

    fn drop_entry(&mut self, dir: Ino, name: &[u8]) -> Option<Ino> {
        let now = self.now;
        let ino = match self.inodes[dir].node {
            Node::Dir(ref mut e) => e.remove(name)?,
            _ => return None,
        };
        self.inodes[dir].mtime = now;
        let n = &mut self.inodes[ino];
        n.nlink = n.nlink.saturating_sub(1);
        self.reap(ino);
        Some(ino)
    }

    pub fn reap(&mut self, ino: Ino) {
        let n = &mut self.inodes[ino];
        let dead = match n.node {
            Node::Dir(_) => n.nlink <= 1,
            _ => n.nlink == 0,
        };
        if dead && n.opens == 0 && n.live {
            if let Node::File(ref mut d) = n.node {
                self.used = self.used.saturating_sub(d.len() as u64);
                d.clear();
                d.shrink_to_fit();
            }
            n.live = false;
        }
    }

    pub fn add_link(&mut self, dir: Ino, name: &[u8], ino: Ino) {
        self.put_entry(dir, name, ino);
        self.log(Meta::Link { dir, name: name.to_vec(), ino });
    }

    pub fn remove_link(&mut self, dir: Ino, name: &[u8]) {
        self.drop_entry(dir, name);
        self.log(Meta::Unlink { dir, name: name.to_vec() });
    }

    pub fn move_link(&mut self, sd: Ino, sn: &[u8], dd: Ino, dn: &[u8]) {
        self.raw_move(sd, sn, dd, dn);
        self.log(Meta::Rename { sd, sn: sn.to_vec(), dd, dn: dn.to_vec() });
    }

    fn raw_move(&mut self, sd: Ino, sn: &[u8], dd: Ino, dn: &[u8]) {
        let ino = match self.lookup(sd, sn) {
            Some(i) => i,
            None => return,
        };
        if self.lookup(dd, dn) == Some(ino) {
            return;
        }
        self.drop_entry(dd, dn);
        if let Node::Dir(ref mut e) = self.inodes[sd].node {
            e.remove(sn);
        }
        self.inodes[ino].nlink -= 1;
        self.put_entry(dd, dn, ino);
    }

    pub fn set_attr(&mut self, ino: Ino, mode: u32, uid: u32, gid: u32) {
        let n = &mut self.inodes[ino];
        n.mode = mode;
        n.uid = uid;
        n.gid = gid;
        self.log(Meta::Attr { ino, mode, uid, gid });
    }

    /// Bytes that may still be written, given the quota.
    pub fn room(&self) -> u64 {
        match self.quota {
            Some(q) => q.saturating_sub(self.used),
            None => u64::MAX,
        }
    }

    pub fn write_at(&mut self, ino: Ino, off: u64, b: &[u8]) {
        let now = self.now;
        let mut grown = 0;
        let n = &mut self.inodes[ino];
        if let Node::File(ref mut d) = n.node {
            let end = off as usize + b.len();
            if d.len() < end {
                grown = (end - d.len()) as u64;
                d.resize(end, 0);
            }
            d[off as usize..end].copy_from_slice(b);
            n.dirty = true;
            n.mtime = now;
        }
        self.used += grown;
    }

    pub fn set_len(&mut self, ino: Ino, len: u64) {
        let now = self.now;
        let n = &mut self.inodes[ino];
        if let Node::File(ref mut d) = n.node {
            self.used = self.used + len - (d.len() as u64).min(self.used + len);
            d.resize(len as usize, 0);
            n.dirty = true;
            n.mtime = now;
        }
    }

    pub fn fsync(&mut self, ino: Ino) {
        self.committed = self.journal.len();
        let n = &mut self.inodes[ino];
        if let Node::File(ref d) = n.node {
            n.synced = d.clone();
            n.dirty = false;
        }
    }

    pub fn sync_all(&mut self) {
        self.committed = self.journal.len();
        for n in self.inodes.iter_mut() {
            if let Node::File(ref d) = n.node {
                n.synced = d.clone();
                n.dirty = false;
            }
        }
    }

    /// The power fails.  `cut` in 0..=1000 chooses how much of the uncommitted
    /// journal survives; `data` seeds what becomes of unsynced data.
    pub fn power_loss(&mut self, cut: u64, data: u64) -> (usize, usize) {
        let base = match self.base.take() {
            Some(b) => b,
            None => return (0, 0),
        };
        let total = self.journal.len();
        let keep = self.committed + ((total - self.committed) as u64 * cut / 1000) as usize;
        let mut fs = *base;
        fs.base = None;
        fs.now = self.now;
        fs.quota = self.quota;
        let ops: Vec<Meta> = self.journal[..keep].to_vec();
        for m in &ops {
            match m {
                Meta::Create { ino, mode, uid, gid, kind, target } => {
                    let node = match kind {
                        0 => Node::File(vec![]),
                        1 => Node::Dir(BTreeMap::new()),
                        2 => Node::Symlink(target.clone()),
                        _ => Node::Null,
                    };
                    while fs.inodes.len() < *ino {
                        // an inode created after the cut in program order cannot precede
                        // this one, so indices always line up
                        unreachable!();
                    }
                    fs.new_inode(node, *mode, *uid, *gid, ROOT);
                }
                Meta::Link { dir, name, ino } => fs.put_entry(*dir, name, *ino),
                Meta::Unlink { dir, name } => {
                    fs.drop_entry(*dir, name);
                }
                Meta::Rename { sd, sn, dd, dn } => fs.raw_move(*sd, sn, *dd, dn),
                Meta::Attr { ino, mode, uid, gid } => {
                    fs.inodes[*ino].mode = *mode;
                    fs.inodes[*ino].uid = *uid;
                    fs.inodes[*ino].gid = *gid;
                }
            }
        }
        let mut rng = Rng::new(data);
        let mut used = 0;
        for i in 0..fs.inodes.len() {
            let live = &self.inodes[i];
            if let Node::File(ref d) = live.node {
                let choice = if live.dirty { rng.below(5) } else { 9 };
                // a file that died in memory but whose unlink was lost: only its
                // synced contents are certain
                let full: &[u8] = if live.live { d } else { &live.synced };
                let v: Vec<u8> = match choice {
                    0 => vec![],
                    1 => {
                        let n = if full.is_empty() { 0 } else { rng.below(full.len() as u64) as usize };
                        full[..n].to_vec()
                    }
                    2 => vec![0; full.len()],
                    3 => live.synced.clone(),
                    _ => full.to_vec(),
                };
                used += v.len() as u64;
                fs.inodes[i].synced = v.clone();
                fs.inodes[i].node = Node::File(v);
                fs.inodes[i].dirty = false;
                fs.inodes[i].mtime = live.mtime;
            }
            fs.inodes[i].opens = 0;
            fs.inodes[i].obj = None;
        }
        fs.used = used;
        *self = fs;
        for i in 0..self.inodes.len() {
            self.reap(i);
        }
        self.checkpoint();
        (total - keep, total)
    }

    // ---- helpers for setting a world up ----

    pub fn mkdirs(&mut self, path: &str, mode: u32, uid: u32, gid: u32) -> Ino {
        let mut cur = ROOT;
        for comp in path.split('/').filter(|s| !s.is_empty()) {
            cur = match self.lookup(cur, comp.as_bytes()) {
                Some(i) => i,
                None => {
                    let i = self.new_inode(Node::Dir(BTreeMap::new()), mode, uid, gid, cur);
                    self.add_link(cur, comp.as_bytes(), i);
                    i
                }
            };
        }
        cur
    }

    pub fn put_file(&mut self, path: &str, data: &[u8], mode: u32, uid: u32, gid: u32) -> Ino {
        let (d, n) = path.rsplit_once('/').unwrap();
        let dir = self.mkdirs(d, 0o755, uid, gid);
        if self.lookup(dir, n.as_bytes()).is_some() {
            self.remove_link(dir, n.as_bytes());
        }
        let i = self.new_inode(Node::File(data.to_vec()), mode, uid, gid, dir);
        self.used += data.len() as u64;
        self.add_link(dir, n.as_bytes(), i);
        i
    }

    pub fn find(&self, path: &str) -> Option<Ino> {
        self.resolve(ROOT, path.as_bytes(), &Cred::root(), true).ok()?.ino
    }

    /// Every regular file below `dir`, as (path relative to dir, ino).
    pub fn walk(&self, dir: Ino, prefix: &str, out: &mut Vec<(String, Ino)>) {
        if let Some(e) = self.entries(dir) {
            for (k, &i) in e {
                let p = format!("{}{}", prefix, String::from_utf8_lossy(k));
                if self.is_dir(i) {
                    self.walk(i, &format!("{}/", p), out);
                } else {
                    out.push((p, i));
                }
            }
        }
    }
}
