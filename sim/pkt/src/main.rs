//! C18: the pkt-line codec over a simulated transport.
//!
//! The seam is the stream: every call the codec makes on its transport is
//! answered by a plan drawn from one seed (how much is transferred, which calls
//! are interrupted, where the stream fails, ends or is damaged).  A reference
//! codec, which works on the final bytes, says what has to come out.

use scutiger_core::pktline::{Packet, PacketType, Reader, Writer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

const MAX: usize = 65516;

// ---------------------------------------------------------------- scenario

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum WOp {
    /// `write_all` of this many bytes
    All(usize),
    /// one call of `write`, repeated for what it did not take
    Write(usize),
    /// `io::copy` from a slice
    Copy(usize),
    /// `write_packet` of a data packet
    Data(usize),
    FlushPkt,
    Delim,
    /// `io::Write::flush`
    Flush,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum ROp {
    /// `read_packet`
    Packet,
    /// `read` with a buffer of this size
    Read(usize),
    /// `read` until it says 0, with buffers of this size
    ReadAll(usize),
    ReadToEnd,
    Copy,
    /// up to this many packets from the iterator
    Iter(usize),
}

/// How the transport answers the codec's calls.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
struct Plan {
    /// at most so many bytes per call, in turn; empty means as many as asked for
    chunks: Vec<usize>,
    /// calls (by number) that are interrupted
    intr: Vec<u64>,
    /// from this offset on every call fails with this error number
    fail: Option<(usize, i32)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Scenario {
    seed: u64,
    /// what is written; its encoding is what is read
    w: Vec<WOp>,
    wplan: Plan,
    /// the stream is damaged: byte values at offsets
    damage: Vec<(usize, u8)>,
    /// bytes put in at an offset
    insert: Vec<(usize, Vec<u8>)>,
    /// the stream ends here
    cut: Option<usize>,
    /// reading, repeated from the start until the stream is used up
    r: Vec<ROp>,
    rplan: Plan,
}

// ---------------------------------------------------------------- randomness

struct Rng(u64);
impl Rng {
    fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    fn chance(&mut self, pc: u64) -> bool {
        self.below(100) < pc
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
}

fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => r.pick(&[0usize, 0, 1, 2, 3, 4, 5]),
        1 => r.pick(&[65511usize, 65512, 65515, 65516, 65517, 65519, 65520, 65521, 65535, 65536, 65537]),
        2 => r.pick(&[131031usize, 131032, 131033, 131072, 196548]),
        3 => r.below(70000) as usize,
        4 => r.below(2000) as usize,
        _ => r.below(40) as usize,
    }
}

fn plan(r: &mut Rng, what: u64) -> Plan {
    let mut p = Plan::default();
    let n = 1 + r.below(6);
    match r.below(5) {
        0 => (),
        1 => p.chunks = vec![1],
        2 => {
            for _ in 0..n {
                p.chunks.push(1 + r.below(8) as usize)
            }
        }
        3 => {
            for _ in 0..n {
                p.chunks.push(1 + r.below(70000) as usize)
            }
        }
        _ => {
            for _ in 0..n {
                let c = r.pick(&[1usize, 2, 3, 4, 5, 7, 100, 4096, 65515, 65516, 65517, 65520]);
                p.chunks.push(c)
            }
        }
    }
    if what & 1 != 0 && r.chance(60) {
        for _ in 0..1 + r.below(5) {
            let top = r.pick(&[3u64, 12, 60]);
            p.intr.push(r.below(top));
        }
        p.intr.sort();
        p.intr.dedup();
    }
    p
}

fn scenario(seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    // swarm: every run enables its own mixture
    let intr = r.chance(50);
    let wfail = r.chance(15);
    let rfail = r.chance(20);
    let cut = r.chance(25);
    let damage = r.chance(25);
    let small = r.chance(50);
    let mut w = vec![];
    for _ in 0..1 + r.below(9) {
        let n = if small { r.below(20) as usize } else { size(&mut r) };
        w.push(match r.below(10) {
            0 | 1 => WOp::All(n),
            2 => WOp::Write(n),
            3 => WOp::Copy(n),
            4 | 5 | 6 => WOp::Data(n),
            7 => WOp::FlushPkt,
            8 => WOp::Delim,
            _ => WOp::Flush,
        });
    }
    if r.chance(60) {
        w.push(WOp::FlushPkt);
    }
    let mut rops = vec![];
    let only = r.below(6);
    for _ in 0..1 + r.below(5) {
        let n = match r.below(5) {
            0 => r.pick(&[0usize, 1, 2, 3, 4]),
            1 => r.pick(&[65515usize, 65516, 65517, 65520, 65536, 70000, 131072]),
            2 => r.below(70000) as usize,
            _ => 1 + r.below(30) as usize,
        };
        rops.push(match if only < 4 { only } else { r.below(6) } {
            0 => ROp::Packet,
            1 => ROp::Read(n),
            2 => ROp::ReadAll(n.max(1)),
            3 => ROp::Iter(1 + r.below(6) as usize),
            4 => ROp::ReadToEnd,
            _ => ROp::Copy,
        });
    }
    if rops.iter().all(|x| *x == ROp::Read(0)) {
        rops.push(ROp::Read(7));
    }
    let mut sc = Scenario {
        seed,
        w,
        wplan: plan(&mut r, intr as u64),
        damage: vec![],
        insert: vec![],
        cut: None,
        r: rops,
        rplan: plan(&mut r, intr as u64),
    };
    // places in the encoded stream
    let (enc, heads) = encode(&sc.w);
    let place = |r: &mut Rng, enc: &[u8]| -> usize {
        if heads.is_empty() || r.chance(20) {
            return r.below(enc.len() as u64 + 1) as usize;
        }
        let h = heads[r.below(heads.len() as u64) as usize];
        (h + r.below(7) as usize).min(enc.len())
    };
    if cut {
        sc.cut = Some(place(&mut r, &enc));
    }
    if wfail {
        let at = place(&mut r, &enc);
        sc.wplan.fail = Some((at, r.pick(&[libc_err("EIO"), libc_err("ECONNRESET"), libc_err("EAGAIN"), libc_err("ENOSPC")])));
    }
    if rfail {
        let at = place(&mut r, &enc);
        sc.rplan.fail = Some((at, r.pick(&[libc_err("EIO"), libc_err("ECONNRESET"), libc_err("EAGAIN"), libc_err("ETIMEDOUT")])));
    }
    if damage && !heads.is_empty() {
        let h = heads[r.below(heads.len() as u64) as usize];
        match r.below(4) {
            0 => {
                let b = r.pick(b"/:;@`gGAFZz+- \t\n\0\x7f\x80\xff_xX");
                sc.damage.push((h + r.below(4) as usize, b));
            }
            1 => {
                let v: [u8; 4] = r.pick(&[
                    *b"0002", *b"0003", *b"fff1", *b"fff4", *b"ffff", *b"fff0", *b"FFF0", *b"000A", *b"+004", *b"-001", *b" 00a",
                    *b"0x10", *b"0005", *b"0001", *b"0000", *b"10000"[..4].try_into().map(|x: [u8; 4]| x).as_ref().unwrap(),
                ]);
                for k in 0..4 {
                    sc.damage.push((h + k, v[k]));
                }
            }
            2 => sc.damage.push((h + r.below(4) as usize, r.next() as u8)),
            _ => {
                let v: Vec<u8> = r.pick(&[b"0004".to_vec(), b"0004".to_vec(), b"0002".to_vec(), b"0003".to_vec(), b"0".to_vec(), b"00040004".to_vec(), b"0005x".to_vec(), b"000ax".to_vec()]);
                sc.insert.push((h, v));
            }
        }
    }
    sc
}

fn libc_err(n: &str) -> i32 {
    match n {
        "EIO" => 5,
        "EAGAIN" => 11,
        "ENOSPC" => 28,
        "ECONNRESET" => 104,
        "ETIMEDOUT" => 110,
        _ => unreachable!(),
    }
}

/// The bytes of the k-th operation.
fn payload(k: usize, n: usize) -> Vec<u8> {
    let mut r = Rng::new(k as u64 * 7919 + 1);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

// ---------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq)]
enum P {
    /// written with `write_packet`: a packet of its own
    Data(Vec<u8>),
    /// written as a stream: packets wherever they please
    Stream(Vec<u8>),
    Flush,
    Delim,
}

/// What the operations amount to, in order.
fn meaning(w: &[WOp]) -> Vec<P> {
    let mut v = vec![];
    for (k, op) in w.iter().enumerate() {
        match op {
            WOp::All(n) | WOp::Write(n) | WOp::Copy(n) => v.push(P::Stream(payload(k, *n))),
            WOp::Data(n) => v.push(P::Data(payload(k, *n))),
            WOp::FlushPkt => v.push(P::Flush),
            WOp::Delim => v.push(P::Delim),
            WOp::Flush => (),
        }
    }
    v
}

/// The plain encoding and the offsets of its headers (to aim faults at).
fn encode(w: &[WOp]) -> (Vec<u8>, Vec<usize>) {
    let mut v = vec![];
    let mut h = vec![];
    for p in meaning(w) {
        match p {
            P::Data(d) => {
                if d.len() <= MAX {
                    h.push(v.len());
                    v.extend_from_slice(format!("{:04x}", d.len() + 4).as_bytes());
                    v.extend_from_slice(&d);
                }
            }
            P::Stream(d) => {
                for c in d.chunks(MAX) {
                    h.push(v.len());
                    v.extend_from_slice(format!("{:04x}", c.len() + 4).as_bytes());
                    v.extend_from_slice(c);
                }
            }
            P::Flush => {
                h.push(v.len());
                v.extend_from_slice(b"0000");
            }
            P::Delim => {
                h.push(v.len());
                v.extend_from_slice(b"0001");
            }
        }
    }
    (v, h)
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    /// the stream ends between packets
    Regular,
    /// inside a packet; what there is of its data
    Cut(Vec<u8>),
    /// not a header
    Bad,
    /// the transport fails here; what there is of the packet's data
    Fails(Vec<u8>),
}

/// Independent decoder: the packets (None for flush, delim as an empty option) and how it ends.
fn decode(b: &[u8], fails: Option<usize>) -> (Vec<(char, Vec<u8>)>, End) {
    let n = fails.map(|f| f.min(b.len())).unwrap_or(b.len());
    let out = |d: &[u8]| {
        if fails.map(|f| f <= b.len()).unwrap_or(false) {
            End::Fails(d.to_vec())
        } else {
            End::Cut(d.to_vec())
        }
    };
    let mut v = vec![];
    let mut i = 0;
    loop {
        if i == n {
            return match out(b"") {
                End::Cut(_) => (v, End::Regular),
                e => (v, e),
            };
        }
        if n - i < 4 {
            // not even a header; but it may be wrong already
            let e = out(b"");
            return (v, e);
        }
        let h = &b[i..i + 4];
        let mut len = 0usize;
        for c in h {
            let d = match b"0123456789abcdef".iter().position(|x| x == c) {
                Some(d) => d,
                None => return (v, End::Bad),
            };
            len = len * 16 + d;
        }
        i += 4;
        match len {
            0 => v.push(('f', vec![])),
            1 => v.push(('d', vec![])),
            2 | 3 => return (v, End::Bad),
            _ if len > MAX + 4 => return (v, End::Bad),
            _ => {
                let l = len - 4;
                if n - i < l {
                    let e = out(&b[i..n]);
                    return (v, e);
                }
                v.push(('p', b[i..i + l].to_vec()));
                i += l;
            }
        }
    }
}

// ---------------------------------------------------------------- transport

#[derive(Default)]
struct Log {
    hash: u64,
    calls: u64,
    trace: Option<Vec<String>>,
    fired: BTreeMap<&'static str, u64>,
    failed: bool,
    endless: bool,
}

impl Log {
    fn add(&mut self, kind: u64, n: usize) {
        self.calls += 1;
        let c = match n {
            0..=8 => n as u64,
            9..=65514 => 9,
            65515..=65521 => n as u64,
            _ => 10,
        };
        self.hash = (self.hash ^ (kind << 32) ^ c).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(t) = &mut self.trace {
            t.push(f())
        }
    }
    fn fire(&mut self, k: &'static str) {
        *self.fired.entry(k).or_insert(0) += 1;
    }
}

struct Pipe {
    plan: Plan,
    call: u64,
    off: usize,
    data: Rc<RefCell<Vec<u8>>>,
    log: Rc<RefCell<Log>>,
    limit: u64,
    /// bytes flushed down
    flushed: Rc<RefCell<usize>>,
}

impl Pipe {
    fn new(plan: &Plan, data: Vec<u8>, log: &Rc<RefCell<Log>>, bytes: usize) -> Pipe {
        Pipe {
            plan: plan.clone(),
            call: 0,
            off: 0,
            data: Rc::new(RefCell::new(data)),
            log: log.clone(),
            limit: 4 * bytes as u64 + 2000,
            flushed: Rc::new(RefCell::new(0)),
        }
    }
    /// The number of bytes this call may transfer.
    fn next(&mut self, want: usize, have: Option<usize>) -> io::Result<usize> {
        let c = self.call;
        self.call += 1;
        let mut log = self.log.borrow_mut();
        if self.call > self.limit {
            log.endless = true;
            panic!("endless");
        }
        if self.plan.intr.contains(&c) {
            log.add(1, 0);
            log.fire("EINTR");
            log.note(|| format!("call {}: EINTR", c));
            return Err(io::Error::from_raw_os_error(4));
        }
        let mut n = want;
        if !self.plan.chunks.is_empty() {
            n = n.min(self.plan.chunks[c as usize % self.plan.chunks.len()].max(1));
        }
        if let Some(h) = have {
            n = n.min(h);
        }
        if let Some((at, e)) = self.plan.fail {
            if want > 0 && self.off >= at {
                log.add(2, e as usize);
                log.fire(match e {
                    5 => "EIO",
                    11 => "EAGAIN",
                    28 => "ENOSPC",
                    104 => "ECONNRESET",
                    _ => "ETIMEDOUT",
                });
                log.failed = true;
                log.note(|| format!("call {} at {}: error {}", c, self.off, e));
                return Err(io::Error::from_raw_os_error(e));
            }
            n = n.min(at - self.off.min(at));
        }
        if n < want && have.map(|h| n < h).unwrap_or(true) {
            log.fire("short transfer");
        }
        log.add(3, n);
        log.note(|| format!("call {} at {}: {} of {}", c, self.off, n, want));
        Ok(n)
    }
}

impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let len = self.data.borrow().len();
        let n = self.next(b.len(), Some(len - self.off))?;
        b[..n].copy_from_slice(&self.data.borrow()[self.off..self.off + n]);
        self.off += n;
        if n == 0 && !b.is_empty() {
            self.log.borrow_mut().fire("end of stream");
        }
        Ok(n)
    }
}

impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.next(b.len(), None)?;
        self.data.borrow_mut().extend_from_slice(&b[..n]);
        self.off += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.log.borrow_mut().add(4, 0);
        *self.flushed.borrow_mut() = self.data.borrow().len();
        Ok(())
    }
}

// ---------------------------------------------------------------- a run

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Viol {
    kind: String,
    msg: String,
}

#[derive(Default)]
struct Outcome {
    v: Vec<Viol>,
    hash: u64,
    calls: u64,
    bytes: u64,
    fired: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    trace: Vec<String>,
    nontrivial: bool,
}

fn same_stream(got: &[(char, Vec<u8>)], want: &[P]) -> Option<String> {
    let mut i = 0;
    let mut k = 0;
    while k < want.len() {
        match &want[k] {
            P::Flush | P::Delim => {
                let c = if want[k] == P::Flush { 'f' } else { 'd' };
                if got.get(i).map(|g| g.0) != Some(c) {
                    return Some(format!("operation {}: {:?} is not where it was written", k, want[k]));
                }
                i += 1;
                k += 1;
            }
            P::Data(d) => {
                match got.get(i) {
                    Some(('p', x)) if x == d => (),
                    x => {
                        return Some(format!(
                            "operation {}: a packet of {} bytes became {:?}",
                            k,
                            d.len(),
                            x.map(|y| (y.0, y.1.len()))
                        ))
                    }
                }
                i += 1;
                k += 1;
            }
            P::Stream(_) => {
                // neighbouring streams form one
                let mut d = vec![];
                while let Some(P::Stream(x)) = want.get(k) {
                    d.extend_from_slice(x);
                    k += 1;
                }
                let mut off = 0;
                while off < d.len() {
                    match got.get(i) {
                        Some(('p', x)) if d[off..].starts_with(x) => off += x.len(),
                        x => {
                            return Some(format!(
                                "stream before operation {}: at byte {} of {} comes {:?}",
                                k,
                                off,
                                d.len(),
                                x.map(|y| (y.0, y.1.len()))
                            ))
                        }
                    }
                    i += 1;
                }
            }
        }
    }
    if i < got.len() {
        return Some(format!("{} packets more than were written", got.len() - i));
    }
    None
}

fn run(sc: &Scenario, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    let log = Rc::new(RefCell::new(Log::default()));
    if trace {
        log.borrow_mut().trace = Some(vec![]);
    }
    let r = catch_unwind(AssertUnwindSafe(|| write_side(sc, &log, &mut o)));
    let stream = match r {
        Ok(s) => Some(s),
        Err(_) => {
            let e = log.borrow().endless;
            o.v.push(Viol {
                kind: if e { "endless".into() } else { "panic".into() },
                msg: if e { "the writer does not end".into() } else { "the writer panics".into() },
            });
            None
        }
    };
    if o.v.is_empty() {
        let mut s = match stream {
            Some(Some(s)) => s,
            _ => encode(&sc.w).0,
        };
        let mut ins = sc.insert.clone();
        ins.sort_by(|a, b| b.0.cmp(&a.0));
        for (at, b) in ins {
            let at = at.min(s.len());
            s.splice(at..at, b);
        }
        for (at, b) in &sc.damage {
            if *at < s.len() && s[*at] != *b {
                s[*at] = *b;
                log.borrow_mut().fire("damaged byte");
            }
        }
        if let Some(c) = sc.cut {
            if c < s.len() {
                s.truncate(c);
                log.borrow_mut().fire("cut");
            }
        }
        o.bytes += s.len() as u64;
        let r = catch_unwind(AssertUnwindSafe(|| read_side(sc, s, &log, &mut o)));
        if r.is_err() {
            let e = log.borrow().endless;
            o.v.push(Viol {
                kind: if e { "endless".into() } else { "panic".into() },
                msg: if e { "the reader does not end".into() } else { "the reader panics".into() },
            });
        }
    }
    let mut l = log.borrow_mut();
    o.hash = l.hash;
    o.calls = l.calls;
    o.fired = std::mem::take(&mut l.fired);
    o.trace = l.trace.take().unwrap_or_default();
    o.nontrivial = !o.fired.is_empty();
    o
}

/// Executes the writing half; what reached the transport, if all went well.
fn write_side(sc: &Scenario, log: &Rc<RefCell<Log>>, o: &mut Outcome) -> Option<Vec<u8>> {
    let total: usize = encode(&sc.w).0.len();
    let pipe = Pipe::new(&sc.wplan, vec![], log, 2 * total + 10 * sc.w.len());
    let sink = pipe.data.clone();
    let flushed = pipe.flushed.clone();
    let mut wr = Writer::new(pipe);
    let mut done: Vec<WOp> = vec![];
    let mut idx: Vec<usize> = vec![];
    let mut failed: Option<String> = None;
    let mut part: Option<(usize, WOp)> = None;
    for (k, op) in sc.w.iter().enumerate() {
        log.borrow_mut().note(|| format!("{:?}", op));
        let r: Result<(), String> = match op {
            WOp::All(n) => wr.write_all(&payload(k, *n)).map_err(|e| e.to_string()),
            WOp::Copy(n) => match io::copy(&mut &payload(k, *n)[..], &mut wr) {
                Ok(c) if c == *n as u64 => Ok(()),
                Ok(c) => {
                    o.v.push(Viol { kind: "lost".into(), msg: format!("copying {} bytes copies {}", n, c) });
                    return None;
                }
                Err(e) => Err(e.to_string()),
            },
            WOp::Write(n) => {
                let d = payload(k, *n);
                let mut off = 0;
                let mut res = Ok(());
                let mut zero = 0;
                while off < d.len() {
                    match wr.write(&d[off..]) {
                        Ok(c) if c > d.len() - off => {
                            o.v.push(Viol { kind: "count".into(), msg: format!("write of {} bytes says it took {}", d.len() - off, c) });
                            return None;
                        }
                        Ok(0) => {
                            zero += 1;
                            if zero > 3 {
                                res = Err("takes nothing".to_string());
                                break;
                            }
                        }
                        Ok(c) => off += c,
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                        Err(e) => {
                            res = Err(e.to_string());
                            break;
                        }
                    }
                }
                res
            }
            WOp::Data(n) => {
                let r = wr.write_packet(&Packet::new(PacketType::Data(*n), &payload(k, *n)));
                if *n > MAX && r.is_err() && !log.borrow().failed {
                    // refused as a whole: nothing may have been written
                    *o.probes.entry("oversized packet refused").or_insert(0) += 1;
                    continue;
                }
                r.map(|_| ()).map_err(|e| e.to_string())
            }
            WOp::FlushPkt => wr.write_packet(&Packet::new(PacketType::Flush, b"")).map(|_| ()).map_err(|e| e.to_string()),
            WOp::Delim => wr.write_packet(&Packet::new(PacketType::Delim, b"")).map(|_| ()).map_err(|e| e.to_string()),
            WOp::Flush => wr.flush().map_err(|e| e.to_string()),
        };
        match r {
            Ok(()) => {
                done.push(op.clone());
                idx.push(k);
            }
            Err(e) => {
                if !log.borrow().failed {
                    o.v.push(Viol { kind: "refused".into(), msg: format!("{:?} fails although the transport works: {}", op, e) });
                    return None;
                }
                failed = Some(e);
                part = Some((k, op.clone()));
                break;
            }
        }
    }
    let all = failed.is_none();
    if all {
        if let Err(e) = wr.flush() {
            if !log.borrow().failed {
                o.v.push(Viol { kind: "refused".into(), msg: format!("flush fails although the transport works: {}", e) });
            }
            return None;
        }
    }
    drop(wr);
    let s = sink.borrow().clone();
    let mean = |ks: &[usize]| -> Vec<P> {
        let mut v = vec![];
        for k in ks {
            let one = &sc.w[*k];
            match one {
                WOp::All(n) | WOp::Write(n) | WOp::Copy(n) => v.push(P::Stream(payload(*k, *n))),
                WOp::Data(n) => v.push(P::Data(payload(*k, *n))),
                WOp::FlushPkt => v.push(P::Flush),
                WOp::Delim => v.push(P::Delim),
                WOp::Flush => (),
            }
        }
        v
    };
    let (got, end) = decode(&s, None);
    if let Some(g) = got.iter().find(|g| g.1.len() > MAX) {
        o.v.push(Viol { kind: "too long".into(), msg: format!("a packet of {} bytes", g.1.len()) });
        return None;
    }
    if all {
        let want = mean(&idx);
        let want: Vec<P> = want
            .into_iter()
            .map(|p| match p {
                // an oversized packet that was not refused may have been split
                P::Data(d) if d.len() > MAX => P::Stream(d),
                p => p,
            })
            .collect();
        if end != End::Regular {
            o.v.push(Viol { kind: "lost".into(), msg: format!("everything was written, but the stream ends {:?}", short(&end)) });
            return None;
        }
        if let Some(m) = same_stream(&got, &want) {
            o.v.push(Viol { kind: "changed".into(), msg: m });
            return None;
        }
        if *flushed.borrow() < s.len() {
            o.v.push(Viol { kind: "lost".into(), msg: "flush does not reach the transport".into() });
            return None;
        }
        *o.probes.entry("whole streams written").or_insert(0) += 1;
        return Some(s);
    }
    // The transport failed: what reached it is a beginning of what was to be
    // written, and nothing that was said to be done is missing (except in front of it).
    *o.probes.entry("writes failed").or_insert(0) += 1;
    let mut ks = idx.clone();
    if let Some((k, _)) = part {
        ks.push(k);
    }
    let ops: Vec<WOp> = sc
        .w
        .iter()
        .enumerate()
        .map(|(k, op)| if ks.contains(&k) { op.clone() } else { WOp::Flush })
        .collect();
    let (full, _) = encode(&ops);
    if !full.starts_with(&s) {
        // other packet boundaries in streams would be fine: compare decoded
        let (want, _) = decode(&full, None);
        let flat = |v: &[(char, Vec<u8>)]| -> Vec<u16> {
            let mut x = vec![];
            for p in v {
                match p.0 {
                    'p' => x.extend(p.1.iter().map(|b| *b as u16)),
                    'f' => x.push(1000),
                    _ => x.push(1001),
                }
            }
            x
        };
        let a = flat(&want);
        let b = flat(&got);
        if !a.starts_with(&b) {
            o.v.push(Viol { kind: "changed".into(), msg: "after a failure the transport has something else than was written".into() });
        }
    }
    None
}

fn short(e: &End) -> String {
    match e {
        End::Regular => "between packets".into(),
        End::Cut(d) => format!("inside a packet after {} bytes of data", d.len()),
        End::Bad => "at a bad header".into(),
        End::Fails(d) => format!("with an error after {} bytes of data", d.len()),
    }
}

/// Executes the reading half against the reference decoding of the same bytes.
fn read_side(sc: &Scenario, s: Vec<u8>, log: &Rc<RefCell<Log>>, o: &mut Outcome) {
    let (pkts, end) = decode(&s, sc.rplan.fail.map(|f| f.0));
    *o.probes
        .entry(match end {
            End::Regular => "streams that end regularly",
            End::Cut(_) => "streams cut inside a packet",
            End::Bad => "bad headers reached",
            End::Fails(_) => "reads failed",
        })
        .or_insert(0) += 1;
    log.borrow_mut().note(|| format!("stream of {} bytes, {} packets, ends {}", s.len(), pkts.len(), short(&end)));
    let bytes = s.len();
    let pipe = Pipe::new(&sc.rplan, s, log, 2 * bytes + 100);
    let mut rd = Reader::new(pipe);
    // position: packet, and how much of it has been read
    let (mut i, mut off) = (0usize, 0usize);
    // what of the packet in which the stream breaks off was handed out
    let mut tail = 0usize;
    let mut k = 0;
    let mut calls = 0usize;
    macro_rules! bad {
        ($k:expr, $($a:tt)*) => {{
            o.v.push(Viol { kind: $k.into(), msg: format!($($a)*) });
            return;
        }};
    }
    // an error is in order here if the next thing in the stream is its irregular end
    // (or, for the regular end, if that is how the call says so)
    let limit = 3 * (pkts.iter().map(|p| p.1.len() + 1).sum::<usize>() + 50) + 50 * sc.r.len();
    loop {
        calls += 1;
        if calls > limit {
            bad!("endless", "the stream is never used up");
        }
        let mut op = sc.r[k % sc.r.len()].clone();
        k += 1;
        // Changing from reading bytes to reading packets in the middle of a packet is
        // not something the codec says anything about.
        if off > 0 || tail > 0 {
            if let ROp::Packet | ROp::Iter(_) = op {
                op = ROp::Read(64);
            }
        }
        log.borrow_mut().note(|| format!("{:?}", op));
        log.borrow_mut().add(8, 0);
        match op {
            ROp::Packet | ROp::Iter(_) => {
                let n = if let ROp::Iter(n) = op { n } else { 0 };
                for _ in 0..n.max(1) {
                    let r = if n > 0 {
                        match rd.iter().next() {
                            Some(Ok(p)) => Ok(Some(p)),
                            Some(Err(e)) => Err(e),
                            None => Ok(None),
                        }
                    } else {
                        match rd.read_packet() {
                            Ok(p) => Ok(Some(p)),
                            Err(e) if e.io_kind() == io::ErrorKind::UnexpectedEof => Ok(None),
                            Err(e) => Err(e),
                        }
                    };
                    match r {
                        Ok(Some(p)) => {
                            let c = match p.packet_type() {
                                PacketType::Flush => ('f', vec![]),
                                PacketType::Delim => ('d', vec![]),
                                PacketType::Data(n) => {
                                    let d = p.data().unwrap_or(b"").to_vec();
                                    if n != d.len() {
                                        bad!("count", "a packet of {} bytes says it has {}", d.len(), n);
                                    }
                                    ('p', d)
                                }
                            };
                            match pkts.get(i) {
                                Some(w) if *w == c => i += 1,
                                Some(w) => bad!("changed", "packet {}: {} of {} bytes is read as {} of {}", i, w.0, w.1.len(), c.0, c.1.len()),
                                None => bad!("invented", "the stream ends {}, but a packet {} of {} bytes is read", short(&end), c.0, c.1.len()),
                            }
                        }
                        Ok(None) => {
                            if i < pkts.len() {
                                bad!("lost", "end of the stream at packet {} of {}", i, pkts.len());
                            }
                            if end != End::Regular {
                                bad!("regular end", "the stream ends {}, but a regular end is reported", short(&end));
                            }
                            return;
                        }
                        Err(e) => {
                            if i < pkts.len() {
                                bad!("refused", "packet {} of {}: {}", i, pkts.len(), e);
                            }
                            if end == End::Regular {
                                bad!("refused", "the stream ends regularly: {}", e);
                            }
                            return;
                        }
                    }
                }
            }
            ROp::Read(_) | ROp::ReadAll(_) | ROp::ReadToEnd | ROp::Copy => {
                // gather what comes until an end or an error
                let mut got: Vec<u8> = vec![];
                let mut ended = false;
                let mut err: Option<io::Error> = None;
                match op {
                    ROp::Read(n) => {
                        let mut b = vec![0xa5u8; n];
                        match rd.read(&mut b) {
                            Ok(c) if c > n => bad!("count", "read into {} bytes says {}", n, c),
                            Ok(c) => {
                                if b[c..].iter().any(|x| *x != 0xa5) && c < n {
                                    // allowed by the contract of read, but only then
                                    *o.probes.entry("buffer scribbled on").or_insert(0) += 1;
                                }
                                ended = c == 0 && n > 0;
                                got.extend_from_slice(&b[..c]);
                            }
                            Err(e) => err = Some(e),
                        }
                    }
                    ROp::ReadAll(n) => loop {
                        let mut b = vec![0u8; n];
                        match rd.read(&mut b) {
                            Ok(0) => {
                                ended = true;
                                break;
                            }
                            Ok(c) if c > n => bad!("count", "read into {} bytes says {}", n, c),
                            Ok(c) => got.extend_from_slice(&b[..c]),
                            Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                            Err(e) => {
                                err = Some(e);
                                break;
                            }
                        }
                        if got.len() > bytes {
                            bad!("invented", "more data than the stream has bytes");
                        }
                    },
                    ROp::ReadToEnd => match rd.read_to_end(&mut got) {
                        Ok(c) if c != got.len() => bad!("count", "read_to_end says {} for {}", c, got.len()),
                        Ok(_) => ended = true,
                        Err(e) => err = Some(e),
                    },
                    _ => match io::copy(&mut rd, &mut got) {
                        Ok(c) if c != got.len() as u64 => bad!("count", "copy says {} for {}", c, got.len()),
                        Ok(_) => ended = true,
                        Err(e) => err = Some(e),
                    },
                }
                if let Some(e) = &err {
                    if e.kind() == io::ErrorKind::Interrupted {
                        // the contract of read: to be tried again, nothing is lost
                        *o.probes.entry("interruption passed on").or_insert(0) += 1;
                        err = None;
                    }
                }
                // the data must be what comes next
                let mut g = &got[..];
                while !g.is_empty() {
                    match pkts.get(i) {
                        Some(('p', d)) => {
                            let n = g.len().min(d.len() - off);
                            if g[..n] != d[off..off + n] {
                                bad!("changed", "data of packet {} is not what was written", i);
                            }
                            g = &g[n..];
                            off += n;
                            if off == d.len() {
                                i += 1;
                                off = 0;
                            }
                        }
                        Some(w) => bad!("invented", "data is read where a {} is", w.0),
                        None => {
                            // the beginning of a packet that breaks off
                            let d: &[u8] = match &end {
                                End::Cut(d) | End::Fails(d) => d,
                                _ => b"",
                            };
                            if tail + g.len() > d.len() || d[tail..tail + g.len()] != *g {
                                bad!("invented", "the stream ends {}, but data is read", short(&end));
                            }
                            tail += g.len();
                            g = b"";
                        }
                    }
                }
                if ended || err.is_some() {
                    // empty packets carry nothing
                    while off == 0 && matches!(pkts.get(i), Some(('p', d)) if d.is_empty()) {
                        i += 1;
                    }
                }
                if ended {
                    match pkts.get(i) {
                        Some(('p', d)) => bad!("lost", "end of data at byte {} of {} of packet {}", off, d.len(), i),
                        Some(_) => i += 1,
                        None if end == End::Regular => return,
                        None => bad!("regular end", "the stream ends {}, but a regular end of data is reported", short(&end)),
                    }
                } else if let Some(e) = err {
                    if i < pkts.len() {
                        bad!("refused", "packet {} of {}: {}", i, pkts.len(), e);
                    }
                    // the end without a flush packet may be an error for `read`
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- search

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    kind: String,
    message: String,
    log_hash: String,
    original_seed: u64,
    trace: Vec<String>,
    scenario: Scenario,
}

fn seed_of(seed: u64, k: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ k.wrapping_mul(0xd1342543de82ef95) ^ 0x4331_38);
    r.next() >> 10
}

#[derive(Default)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    calls: u64,
    bytes: u64,
    hashes: HashSet<u64>,
    fired: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    found: Option<(u64, Vec<Viol>)>,
    samples: Vec<serde_json::Value>,
    twice: u64,
    broken: Option<String>,
}

fn shrink(sc: &Scenario, kind: &str) -> (Scenario, u64) {
    let mut best = sc.clone();
    let mut tries = 0;
    let start = Instant::now();
    let mut ok = |c: &Scenario| -> bool {
        tries += 1;
        run(c, false).v.iter().any(|v| v.kind == kind)
    };
    loop {
        let mut better = false;
        let mut cands: Vec<Scenario> = vec![];
        for k in 0..best.w.len() {
            let mut c = best.clone();
            c.w.remove(k);
            cands.push(c);
        }
        for k in 0..best.r.len() {
            if best.r.len() > 1 {
                let mut c = best.clone();
                c.r.remove(k);
                cands.push(c);
            }
        }
        for side in 0..2 {
            let p = if side == 0 { &best.wplan } else { &best.rplan };
            let mut alts = vec![];
            if *p != Plan::default() {
                alts.push(Plan::default());
            }
            if !p.chunks.is_empty() {
                alts.push(Plan { chunks: vec![], ..p.clone() });
                alts.push(Plan { chunks: vec![p.chunks[0]], ..p.clone() });
            }
            for k in 0..p.intr.len() {
                let mut q = p.clone();
                q.intr.remove(k);
                alts.push(q);
            }
            if p.fail.is_some() {
                alts.push(Plan { fail: None, ..p.clone() });
            }
            for a in alts {
                let mut c = best.clone();
                if side == 0 {
                    c.wplan = a
                } else {
                    c.rplan = a
                }
                cands.push(c);
            }
        }
        for k in 0..best.damage.len() {
            let mut c = best.clone();
            c.damage.remove(k);
            cands.push(c);
        }
        for k in 0..best.insert.len() {
            let mut c = best.clone();
            c.insert.remove(k);
            cands.push(c);
        }
        if best.cut.is_some() {
            let mut c = best.clone();
            c.cut = None;
            cands.push(c);
        }
        for k in 0..best.w.len() {
            if let WOp::All(n) | WOp::Write(n) | WOp::Copy(n) | WOp::Data(n) = best.w[k] {
                for m in [0, 1, n / 2, n.saturating_sub(1)] {
                    if m < n {
                        let mut c = best.clone();
                        c.w[k] = match c.w[k] {
                            WOp::All(_) => WOp::All(m),
                            WOp::Write(_) => WOp::Write(m),
                            WOp::Copy(_) => WOp::Copy(m),
                            _ => WOp::Data(m),
                        };
                        cands.push(c);
                    }
                }
            }
        }
        for c in cands {
            if start.elapsed().as_secs_f64() > 20.0 {
                return (best, tries);
            }
            if ok(&c) {
                best = c;
                better = true;
                break;
            }
        }
        if !better {
            return (best, tries);
        }
    }
}

fn known(path: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: property=C18 |") {
            let f: Vec<&str> = r.splitn(3, '|').map(|x| x.trim()).collect();
            if f.len() == 3 {
                v.push((f[0].into(), f[1].into(), f[2].into()));
            }
        }
    }
    v
}

fn check(tier: &str, seed: u64, runs: u64, cap: f64, workers: u64, verif: &str, meta: &serde_json::Value) -> i32 {
    let start = Instant::now();
    println!("property C18 tier {} seed {} workers {}", tier, seed, workers);
    let kn = known(&format!("{}/known-findings.txt", verif));
    let first = AtomicU64::new(u64::MAX);
    let parts: Vec<Stats> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers)
            .map(|me| {
                let first = &first;
                let kn = &kn;
                sc.spawn(move || {
                    let mut st = Stats::default();
                    let mut k = me;
                    while k < runs && start.elapsed().as_secs_f64() < cap && k < first.load(Ordering::Relaxed) {
                        let s = scenario(seed_of(seed, k));
                        let o = run(&s, false);
                        if k < 400 {
                            let p = run(&scenario(seed_of(seed, k)), true);
                            st.twice += 1;
                            if p.hash != o.hash || p.v != o.v {
                                st.broken = Some(format!("run {} is not repeatable", k));
                                break;
                            }
                            if k < 3 {
                                st.samples.push(serde_json::json!({"scenario": s, "trace": p.trace.iter().take(60).collect::<Vec<_>>()}));
                            }
                        }
                        st.runs += 1;
                        st.calls += o.calls;
                        st.bytes += o.bytes;
                        for (a, b) in &o.fired {
                            *st.fired.entry(a).or_insert(0) += b;
                        }
                        for (a, b) in &o.probes {
                            *st.probes.entry(a).or_insert(0) += b;
                        }
                        if o.nontrivial {
                            st.nontrivial += 1;
                            st.hashes.insert(o.hash);
                        }
                        let news: Vec<Viol> = o.v.iter().filter(|v| !kn.iter().any(|x| x.0 == v.kind && v.msg.contains(&x.1))).cloned().collect();
                        if !news.is_empty() {
                            first.fetch_min(k, Ordering::Relaxed);
                            st.found = Some((k, news));
                            break;
                        }
                        k += workers;
                    }
                    st
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let searched = start.elapsed().as_secs_f64();
    let mut t = Stats::default();
    for p in parts {
        t.runs += p.runs;
        t.nontrivial += p.nontrivial;
        t.calls += p.calls;
        t.bytes += p.bytes;
        t.twice += p.twice;
        t.hashes.extend(p.hashes);
        for (a, b) in p.fired {
            *t.fired.entry(a).or_insert(0) += b;
        }
        for (a, b) in p.probes {
            *t.probes.entry(a).or_insert(0) += b;
        }
        t.samples.extend(p.samples);
        if p.broken.is_some() {
            t.broken = p.broken;
        }
        if let Some((k, v)) = p.found {
            if t.found.as_ref().map(|f| k < f.0).unwrap_or(true) {
                t.found = Some((k, v));
            }
        }
    }
    for k in &kn {
        println!("KNOWN-FINDING: property=C18 {}", k.2);
    }
    let mut code = 0;
    let mut line = String::new();
    if let Some((k, v)) = &t.found {
        let sc = scenario(seed_of(seed, *k));
        let kind = v[0].kind.clone();
        let (small, tries) = shrink(&sc, &kind);
        let o = run(&small, true);
        let f = o.v.iter().find(|x| x.kind == kind).cloned().unwrap_or(v[0].clone());
        println!("run {} (seed {}): C18 {}: {}", k, sc.seed, f.kind, f.msg);
        println!("minimised in {} runs to {} writes, {} reads", tries, small.w.len(), small.r.len());
        let n = o.trace.len();
        let rp = Replay {
            property: "C18".into(),
            kind: f.kind,
            message: f.msg,
            log_hash: format!("{:016x}", o.hash),
            original_seed: sc.seed,
            trace: if n > 2000 { o.trace[n - 2000..].to_vec() } else { o.trace },
            scenario: small,
        };
        let _ = std::fs::create_dir_all(format!("{}/replays", verif));
        let path = format!("{}/replays/C18-{}.json", verif, sc.seed);
        if std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap()).is_err() {
            return 3;
        }
        let st = std::process::Command::new("/proc/self/exe").args(["replay", &path]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        println!("fresh-process replay: {}", if matches!(st, Ok(s) if s.code() == Some(1)) { "reproduced" } else { "NOT reproduced" });
        line = format!("VIOLATION property=C18 replay={}", path);
        code = 1;
    } else if let Some(b) = &t.broken {
        eprintln!("the simulator is broken: {}", b);
        code = 3;
    }
    let ev = serde_json::json!({
        "property": "C18", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.hashes.len(),
            "rule": "one evaluation = one scenario (writes, transport plan, damage, reads) from one seed; non-trivial = the transport split, interrupted, failed, damaged or cut something; distinct = different sequence of transport events (kind, size class) and read calls",
            "nontrivial": t.nontrivial,
            "samples": t.samples,
            "runs_per_hour": (t.runs as f64 / searched * 3600.0).round(),
            "seeds_per_hour": (t.runs as f64 / searched * 3600.0).round(),
            "simulated_seconds": 0,
            "transport_calls": t.calls,
            "bytes_read_back": t.bytes,
            "faults_fired": t.fired,
            "probes": t.probes,
            "runs_executed_twice_identical": t.twice,
            "workers": workers,
            "real": meta["real"], "stub": meta["stub"],
        },
        "assumptions": meta["assumptions"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    if std::fs::write(format!("{}/evidence/C18.json", verif), serde_json::to_vec_pretty(&ev).unwrap()).is_err() {
        return 3;
    }
    println!("{} runs ({} distinct non-trivial), {} transport calls, {} faults in {:.1} s", t.runs, t.hashes.len(), t.calls, t.fired.values().sum::<u64>(), searched);
    if !line.is_empty() {
        println!("{}", line);
    }
    code
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|k| args.get(k + 1)).cloned();
    let code = match args.get(1).map(|x| x.as_str()) {
        Some("check") => {
            let meta = opt("--meta")
                .and_then(|p| std::fs::read(p).ok())
                .and_then(|b| serde_json::from_slice(&b).ok())
                .unwrap_or(serde_json::json!({}));
            let num = |n: &str, d: f64| opt(n).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
            check(
                &opt("--tier").unwrap_or("quick".into()),
                opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
                num("--runs", 100000.0) as u64,
                num("--cap", 40.0),
                num("--workers", 8.0) as u64,
                &opt("--verif").unwrap_or("/verif".into()),
                &meta,
            )
        }
        Some("replay") => {
            let rp: Replay = match std::fs::read(&args[2]).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                Some(r) => r,
                None => {
                    println!("not a replay file");
                    std::process::exit(3)
                }
            };
            let o = run(&rp.scenario, true);
            if args.iter().any(|a| a == "-v") {
                for t in &o.trace {
                    println!("{}", t);
                }
            }
            println!("log hash {:016x}, recorded {}", o.hash, rp.log_hash);
            match o.v.iter().find(|v| v.kind == rp.kind) {
                Some(v) => {
                    println!("C18 {}: {}", v.kind, v.msg);
                    println!("VIOLATION property=C18 replay={}", args[2]);
                    1
                }
                None => {
                    println!("not reproduced; violations: {:?}", o.v);
                    0
                }
            }
        }
        Some("gen") => {
            println!("{}", serde_json::to_string_pretty(&scenario(args[3].parse().unwrap())).unwrap());
            0
        }
        _ => 3,
    };
    std::process::exit(code)
}
