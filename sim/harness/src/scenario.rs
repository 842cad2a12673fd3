//! A scenario is plain data: everything that decides one run.  A replay file
//! is a scenario plus the violation it shows.

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum Class {
    In,
    Out,
    Err,
    Open,
    Read,
    Stat,
    ReadDir,
    Create,
    Mkdir,
    Write,
    Rename,
    Link,
    Unlink,
    Chmod,
    Fsync,
    Misc,
    /// anything outside the lfs directory (opening the repository)
    Repo,
    Clock,
}
pub const CLASSES: [Class; 18] = [
    Class::In, Class::Out, Class::Err, Class::Open, Class::Read, Class::Stat, Class::ReadDir, Class::Create,
    Class::Mkdir, Class::Write, Class::Rename, Class::Link, Class::Unlink, Class::Chmod, Class::Fsync,
    Class::Misc, Class::Repo, Class::Clock,
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// the call fails with this errno
    Errno(i32),
    /// from this call on every call of the class fails (input and output only)
    Broken(i32),
    /// interrupted: EINTR once
    Eintr,
    /// transfers at most this many bytes
    Short(u32),
    KillBefore,
    KillAfter,
    /// cut 0..=1000, data seed
    PowerBefore(u32, u64),
    PowerAfter(u32, u64),
    /// the wall clock jumps by this many seconds
    Jump(i64),
    /// the session stalls here until the others have taken this many steps
    Pause(u32),
    /// a bit of the data read is flipped (git objects and the like)
    Flip(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub sess: usize,
    pub class: Class,
    /// 1 = the first call of the class by that session
    pub nth: u32,
    pub act: Act,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sched {
    /// switch with probability p/1000 at every yield point
    Random { seed: u64, p: u32 },
    /// priorities with change points
    Pct { seed: u64, depth: u32, len: u32 },
    /// at (session, its nth yield) switch to session
    Explicit { switches: Vec<(u32, u32, u32)> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Client {
    /// sends the next request only after a complete answer to the previous one
    Lockstep,
    /// keeps up to n requests outstanding
    Pipelined(u32),
    /// sends everything at once
    Blast,
}

/// How the transport cuts input into reads.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Chunks {
    Whole,
    Max(u32),
    Random { seed: u64, max: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PayKind {
    Text,
    Binary,
    /// looks like protocol requests
    Requests,
    /// looks like a lock record
    LockRecord,
    Zeros,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub struct Hex(pub String);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pay {
    pub kind: PayKind,
    pub tag: u32,
    pub len: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PutFlaw {
    None,
    /// announce this much more or less than the payload has
    SizeOff(i64),
    /// announce another object's name
    OidOf(Pay),
    /// one payload byte differs
    Corrupt(u32),
    /// raw oid text
    OidText(String),
    /// raw argument lines instead of size=
    Args(Vec<String>),
    /// no delimiter and no payload
    NoDelim,
    /// a delimiter inside the payload at this offset
    InnerDelim(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum IdSource {
    /// the id of the lock on this path
    Path(String),
    Text(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Version(String),
    Batch { objs: Vec<(Pay, i64)>, args: Vec<String>, extra: Vec<String> },
    Put { pay: Pay, flaw: PutFlaw, pieces: u64, args: Vec<String> },
    Verify { pay: Pay, size_off: i64 },
    Get { pay: Pay },
    Lock { path: String, args: Vec<String> },
    Unlock { id: IdSource, args: Vec<String> },
    List { limit: Option<u64>, path: Option<String>, args: Vec<String> },
    /// continue the last listing from its next-cursor, if it had one
    ListNext { limit: Option<u64> },
    Quit,
    /// packets of a request, then a flush; "\u{1}" alone is a delimiter packet
    Packets(Vec<String>),
    /// raw bytes, hex-coded
    Raw(Hex),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Prog {
    Transfer,
    GitAt,
    RecentRefs,
    /// acts directly on the file system: other programs updating references
    Actor,
    /// the pager which git-recent-refs starts, if it does
    Pager,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sess {
    pub prog: Prog,
    pub args: Vec<String>,
    pub user: u32,
    pub umask: u32,
    pub client: Client,
    pub ops: Vec<Op>,
    pub chunks: Chunks,
    pub out_max: u32,
    /// input ends (EOF, or this errno) after so many bytes
    pub cut: Option<(u64, i32)>,
    /// this input byte is replaced
    pub flip: Option<(u64, u8)>,
    /// starts only when these have ended
    pub after: Vec<usize>,
    pub epoch: u32,
    pub actions: Vec<Action>,
    /// part of the final fault-free audit
    pub audit: bool,
}

/// What an Actor does to the repository (git-recent-refs and git-at).
/// References hold a commit's number, or 1000 + the number of an annotated
/// tag, or one of the two below.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Action {
    SetRef { name: String, to: u32 },
    DeleteRef { name: String },
    PackRefs,
    /// a branch name or a detached commit (40 hexadecimal digits by number)
    Checkout { branch: Option<String>, commit: u32 },
    /// all loose commits go to a pack file
    Repack,
    RemoveObject(u32),
    /// 0: empty, 2: garbage; 1, cut off, makes libgit2 1.5.1 loop forever and is
    /// not generated (see known-findings.txt)
    SpoilObject(u32, u8),
    Idle,
}
/// the name of a commit that does not exist
pub const MISSING: u32 = 5000;
/// the empty tree
pub const TREE: u32 = 6000;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    /// a file of garbage named like the lock of this path
    LockGarbage { path: String, content: String },
    /// a lock file of another name
    StrayFile { name: String, content: String },
    LockDir { path: String },
    /// object file with wrong contents
    ObjectGarbage { pay: Pay, content: String },
    ObjectDir { pay: Pay },
    ObjectUnreadable { pay: Pay },
    LockUnreadable { path: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Repo {
    pub bare: bool,
    pub shared: Option<String>,
    /// where and how core.sharedRepository is written down
    #[serde(default)]
    pub shared_at: u8,
    pub lfs_dirs: bool,
    pub preload: Vec<Pay>,
    pub damage: Vec<Damage>,
    pub decoys: bool,
    pub quota: Option<u64>,
    pub start: i64,
    /// nanoseconds the clocks advance per system call
    pub tick: u64,
    /// nanoseconds a client thinks before it sends
    pub think: u64,
    pub dir_batch: u32,
    pub dir_salt: u64,
    pub dtype_unknown: bool,
    /// what the environment of git-lfs-transfer says beyond PATH and HOME
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<(String, String)>,
    pub git: Option<GitRepo>,
}

/// Contents of the repository for git-at and git-recent-refs.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct GitRepo {
    pub commits: Vec<Commit>,
    /// annotated tags: the commit each names
    pub tags: Vec<u32>,
    /// loose references
    pub refs: Vec<(String, u32)>,
    pub packed_refs: Vec<(String, u32)>,
    pub symrefs: Vec<(String, String)>,
    /// loose references with garbage in them
    pub broken: Vec<String>,
    /// a branch, or a detached commit
    pub head: String,
    /// names checked out before, oldest first, as they are in the log
    pub reflog: Vec<String>,
    /// commits stored in a pack file
    pub pack: Vec<u32>,
    /// over how many pack files they are spread
    #[serde(default, skip_serializing_if = "zero")]
    pub packs: u32,
    /// every other pack file is in another repository, named in objects/info/alternates
    #[serde(default, skip_serializing_if = "not")]
    pub borrows: bool,
    /// exit status of git show
    pub show: i32,
    pub subdir: bool,
    /// the program runs in a linked worktree, which has a HEAD of its own
    #[serde(default, skip_serializing_if = "not")]
    pub worktree: bool,
    /// standard output is a terminal
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub term: Option<Term>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Term {
    /// GIT_PAGER, core.pager and PAGER
    pub git_pager: Option<String>,
    pub core_pager: Option<String>,
    pub pager: Option<String>,
    /// the pager ends after reading so much
    pub quits: Option<u32>,
    /// how much the pipe to it holds, and how much it reads at a time
    pub cap: u32,
    pub chunk: u32,
    /// how long the user looks at the end
    pub slow: u32,
    pub status: i32,
    /// standard output is no terminal after all
    #[serde(default, skip_serializing_if = "not")]
    pub off: bool,
    /// standard input and error are terminals
    #[serde(default, skip_serializing_if = "not")]
    pub others: bool,
    /// where and how core.pager is written down
    #[serde(default)]
    pub core_at: u8,
}

fn not(b: &bool) -> bool {
    !*b
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Commit {
    pub parents: Vec<u32>,
    pub ctime: i64,
    pub atime: i64,
    pub msg: String,
    /// time zones of committer and author, in minutes
    #[serde(default, skip_serializing_if = "utc")]
    pub zones: (i32, i32),
    /// odd names of committer and author (see NAMES)
    #[serde(default, skip_serializing_if = "usual")]
    pub names: (u8, u8),
}

fn usual(n: &(u8, u8)) -> bool {
    *n == (0, 0)
}

fn utc(z: &(i32, i32)) -> bool {
    *z == (0, 0)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub profile: String,
    pub seed: u64,
    pub repo: Repo,
    pub sessions: Vec<Sess>,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    pub step_limit: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub scenario: Scenario,
    pub log_hash: String,
    pub original_seed: u64,
    pub trace: Vec<String>,
}

fn zero(n: &u32) -> bool {
    *n == 0
}
