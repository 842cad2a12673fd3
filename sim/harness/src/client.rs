//! The simulated client of a session: turns operations into protocol bytes,
//! delivers them as the scenario says, and takes the answers apart.  The
//! pkt-line reader here is independent of the code under test.

use crate::rng::*;
use crate::scenario::*;
use crate::world::*;
use sha2::{Digest, Sha256};

/// Text in scenarios stands for bytes, one char below U+0100 per byte.
pub fn bytes(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
pub fn text(b: &[u8]) -> String {
    b.iter().map(|&b| b as char).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
pub fn sha256(b: &[u8]) -> String {
    hex(&Sha256::digest(b))
}

pub fn lock_id(path: &[u8]) -> String {
    let mut v = b"v1:".to_vec();
    v.extend_from_slice(path);
    sha256(&v)
}

pub fn is_oid(b: &[u8]) -> bool {
    b.len() == 64 && b.iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c))
}

pub const EVIL: &str = "evil/path";

pub fn payload(p: &Pay) -> Vec<u8> {
    let mut r = Rng::new(p.tag as u64 * 7919 + 13);
    let n = p.len as usize;
    let mut v = Vec::with_capacity(n);
    match p.kind {
        PayKind::Zeros => v.resize(n, 0),
        PayKind::Binary => {
            while v.len() < n {
                v.push(r.next() as u8);
            }
        }
        PayKind::Text => {
            while v.len() < n {
                v.extend_from_slice(format!("line {} of {}\n", r.below(1000), p.tag).as_bytes());
            }
        }
        PayKind::LockRecord => {
            v.extend_from_slice(format!("v1:{}:rec{}", 1_500_000_000 + p.tag as u64, p.tag).as_bytes());
        }
        PayKind::Requests => {
            let lines = [
                "lock\n".to_string(),
                format!("path={}\n", EVIL),
                "refname=refs/heads/main\n".into(),
                format!("unlock {}\n", lock_id(b"a.bin")),
                "batch\n".into(),
                "quit\n".into(),
                "version 1\n".into(),
                "list-lock\n".into(),
                "size=6\n".into(),
                "0009lock\n0013path=evil/path\n001crefname=refs/heads/main\n0000".into(),
                "0000".into(),
                format!("{}\n", p.tag),
            ];
            while v.len() < n {
                v.extend_from_slice(r.pick(&lines).as_bytes());
            }
        }
    }
    v.truncate(n.max(if p.kind == PayKind::LockRecord { 20 } else { 0 }));
    v
}

pub fn oid_of(p: &Pay) -> String {
    sha256(&payload(p))
}

pub fn pkt(out: &mut Vec<u8>, data: &[u8]) {
    out.extend_from_slice(format!("{:04x}", data.len() + 4).as_bytes());
    out.extend_from_slice(data);
}
pub fn line(out: &mut Vec<u8>, s: &str) {
    let mut b = bytes(s);
    b.push(b'\n');
    pkt(out, &b);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pk {
    Data(Vec<u8>),
    Flush,
    Delim,
}

/// One packet of `b`: Ok(None) if incomplete, Err if not a pkt-line.
pub fn read_pkt(b: &[u8]) -> Result<Option<(Pk, usize)>, ()> {
    let have = b.len().min(4);
    if b[..have].iter().any(|c| !(c.is_ascii_digit() || (b'a'..=b'f').contains(c))) {
        return Err(());
    }
    if b.len() < 4 {
        return Ok(None);
    }
    let n = usize::from_str_radix(std::str::from_utf8(&b[..4]).unwrap(), 16).unwrap();
    match n {
        0 => Ok(Some((Pk::Flush, 4))),
        1 => Ok(Some((Pk::Delim, 4))),
        2 | 3 => Err(()),
        n if n > 65520 => Err(()),
        n if b.len() < n => Ok(None),
        n => Ok(Some((Pk::Data(b[4..n].to_vec()), n))),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Answer {
    pub start: usize,
    pub end: usize,
    pub status: u32,
    pub args: Vec<Vec<u8>>,
    pub delim: bool,
    pub data: Vec<Vec<u8>>,
    pub bad: Option<String>,
}

impl Answer {
    pub fn arg(&self, k: &str) -> Option<Vec<u8>> {
        let pre = format!("{}=", k).into_bytes();
        self.args.iter().find(|a| a.starts_with(&pre)).map(|a| {
            let v = &a[pre.len()..];
            v.strip_suffix(b"\n").unwrap_or(v).to_vec()
        })
    }
    pub fn body(&self) -> Vec<u8> {
        self.data.concat()
    }
}

/// A request as the bytes themselves say: the packets up to a flush.
#[derive(Clone, Debug, Default)]
pub struct Req {
    pub start: usize,
    pub end: usize,
    pub pk: Vec<Pk>,
    /// ended by a flush packet
    pub complete: bool,
    /// the framing is lost inside it
    pub bad: bool,
}

pub fn scan_requests(b: &[u8]) -> Vec<Req> {
    let mut v = vec![];
    let mut pos = 0;
    let mut cur = Req::default();
    loop {
        match read_pkt(&b[pos..]) {
            Ok(Some((Pk::Flush, n))) => {
                pos += n;
                cur.end = pos;
                cur.complete = true;
                v.push(std::mem::take(&mut cur));
                cur.start = pos;
            }
            Ok(Some((p, n))) => {
                pos += n;
                cur.pk.push(p);
            }
            Ok(None) => {
                if cur.start < b.len() {
                    cur.end = b.len();
                    v.push(cur);
                }
                return v;
            }
            Err(()) => {
                cur.end = b.len();
                cur.bad = true;
                v.push(cur);
                return v;
            }
        }
    }
}

#[derive(Default)]
pub struct ClientState {
    pub input: Vec<u8>,
    pub read_pos: usize,
    pub raw_sent: u64,
    pub closed: Option<i32>,
    pub next_op: usize,
    pub sent_marks: Vec<(usize, u64)>,
    pub read_marks: Vec<(usize, u64)>,
    pub out: Vec<u8>,
    pub out_marks: Vec<(usize, u64)>,
    pub parsed: usize,
    pub cur: Option<Answer>,
    pub greeting: Option<Answer>,
    pub answers: Vec<Answer>,
    pub garbled: Option<String>,
    pub scan_pos: usize,
    pub complete_reqs: usize,
    pub lost: bool,
    /// bytes of all requests but for payloads, and the most in one request
    pub ctl: usize,
    pub ctl_max: usize,
    scan_req: usize,
    scan_put: (bool, bool),
    /// descriptors and bytes of memory in use when it waited for its first request
    pub first_idle: Option<(usize, i64)>,
    /// for every request sent by an operation: (op, first byte, end)
    pub ops_sent: Vec<(usize, usize, usize)>,
}

impl ClientState {
    fn scan(&mut self) {
        while !self.lost {
            match read_pkt(&self.input[self.scan_pos..]) {
                Ok(Some((p, n))) => {
                    self.scan_pos += n;
                    if !self.scan_put.1 {
                        self.ctl += n;
                        self.scan_req += n;
                        self.ctl_max = self.ctl_max.max(self.scan_req);
                    }
                    match p {
                        Pk::Flush => {
                            self.complete_reqs += 1;
                            self.scan_req = 0;
                            self.scan_put = (false, false);
                        }
                        Pk::Delim => self.scan_put.1 = self.scan_put.0,
                        Pk::Data(d) => self.scan_put.0 |= self.scan_req == n && d.starts_with(b"put-object "),
                    }
                }
                Ok(None) => return,
                Err(()) => self.lost = true,
            }
        }
    }

    fn parse_out(&mut self) {
        while self.garbled.is_none() {
            match read_pkt(&self.out[self.parsed..]) {
                Ok(None) => return,
                Err(()) => {
                    let e = (self.parsed + 24).min(self.out.len());
                    self.garbled = Some(format!(
                        "output byte {}: {:?} is not a pkt-line",
                        self.parsed,
                        text(&self.out[self.parsed..e])
                    ));
                }
                Ok(Some((p, n))) => {
                    let start = self.parsed;
                    self.parsed += n;
                    let a = self.cur.get_or_insert_with(|| Answer { start, ..Default::default() });
                    match p {
                        Pk::Flush => {
                            a.end = self.parsed;
                            let mut a = self.cur.take().unwrap();
                            if self.greeting.is_none() {
                                self.greeting = Some(a);
                            } else {
                                check_grammar(&mut a);
                                self.answers.push(a);
                            }
                        }
                        Pk::Delim => {
                            if a.delim {
                                a.bad = Some("second delimiter".into());
                            }
                            a.delim = true;
                        }
                        Pk::Data(d) => {
                            if a.delim {
                                a.data.push(d);
                            } else {
                                a.args.push(d);
                            }
                        }
                    }
                }
            }
        }
    }
}

fn check_grammar(a: &mut Answer) {
    if a.bad.is_some() {
        return;
    }
    if a.args.is_empty() {
        a.bad = Some("no status line".into());
        return;
    }
    let st = a.args.remove(0);
    let ok = st.len() == 11 && st.starts_with(b"status ") && st[10] == b'\n' && st[7..10].iter().all(u8::is_ascii_digit);
    if !ok {
        a.bad = Some(format!("bad status line {:?}", text(&st[..st.len().min(40)])));
        return;
    }
    a.status = text(&st[7..10]).parse().unwrap();
    if !(100..600).contains(&a.status) {
        a.bad = Some(format!("status {}", a.status));
    }
    for x in &a.args {
        let k = x.iter().position(|&c| c == b'=');
        match k {
            Some(k) if k > 0 && x[..k].iter().all(|c| c.is_ascii_lowercase() || *c == b'-') && x.ends_with(b"\n") => (),
            _ => {
                a.bad = Some(format!("argument {:?} is not key=value", text(&x[..x.len().min(60)])));
                return;
            }
        }
    }
}

/// What the client writes for an operation; None: nothing to send (a listing
/// that has no next page).
fn build(w: &mut World, i: usize, op: &Op) -> Option<Vec<u8>> {
    encode_with(Some((w, i)), op)
}

/// The same for operations that do not depend on the run.
pub fn encode(op: &Op) -> Option<Vec<u8>> {
    encode_with(None, op)
}

fn encode_with(run: Option<(&mut World, usize)>, op: &Op) -> Option<Vec<u8>> {
    let mut o = vec![];
    match op {
        Op::Version(v) => line(&mut o, &format!("version {}", v)),
        Op::Batch { objs, args, extra } => {
            line(&mut o, "batch");
            for a in args {
                line(&mut o, a);
            }
            o.extend_from_slice(b"0001");
            for (p, off) in objs {
                let pl = payload(p);
                line(&mut o, &format!("{} {}", sha256(&pl), (pl.len() as i64 + off).max(0)));
            }
            for e in extra {
                pkt(&mut o, &bytes(e));
            }
        }
        Op::Put { pay, flaw, pieces, args } => {
            let mut data = payload(pay);
            let mut oid = sha256(&data);
            let mut size = data.len() as i64;
            let mut alist = args.clone();
            match flaw {
                PutFlaw::SizeOff(d) => size = (size + d).max(0),
                PutFlaw::OidOf(p) => oid = oid_of(p),
                PutFlaw::Corrupt(at) => {
                    if !data.is_empty() {
                        let k = *at as usize % data.len();
                        data[k] ^= 0x20;
                    }
                }
                PutFlaw::OidText(t) => oid = t.clone(),
                _ => (),
            }
            if let PutFlaw::Args(a) = flaw {
                alist = a.clone();
            } else {
                alist.push(format!("size={}", size));
            }
            line(&mut o, &format!("put-object {}", oid));
            for a in &alist {
                line(&mut o, a);
            }
            if *flaw == PutFlaw::NoDelim {
                o.extend_from_slice(b"0000");
                return Some(o);
            }
            o.extend_from_slice(b"0001");
            if let PutFlaw::InnerDelim(k) = flaw {
                let k = if data.is_empty() { 0 } else { *k as usize % data.len() };
                if k > 0 {
                    pkt(&mut o, &data[..k]);
                }
                o.extend_from_slice(b"0001");
                data.drain(..k);
            }
            let mut r = Rng::new(*pieces);
            let mut pos = 0;
            while pos < data.len() {
                let left = data.len() - pos;
                let n = if pay.kind == PayKind::Requests && *pieces % 3 == 1 {
                    data[pos..].iter().position(|&c| c == b'\n').map(|x| x + 1).unwrap_or(left)
                } else if *pieces == 0 {
                    left.min(65516)
                } else {
                    let cap = *r.pick(&[1usize, 3, 40, 1000, 32768, 65515, 65516]);
                    let k = if left < 200 { r.range(1, left as u64) as usize } else { cap };
                    k.min(left).min(65516)
                };
                // an empty data packet is legal and means nothing
                if *pieces != 0 && r.chance(1, 40) {
                    pkt(&mut o, b"");
                }
                pkt(&mut o, &data[pos..pos + n]);
                pos += n;
            }
        }
        Op::Verify { pay, size_off } => {
            let p = payload(pay);
            line(&mut o, &format!("verify-object {}", sha256(&p)));
            line(&mut o, &format!("size={}", (p.len() as i64 + size_off).max(0)));
        }
        Op::Get { pay } => line(&mut o, &format!("get-object {}", oid_of(pay))),
        Op::Lock { path, args } => {
            line(&mut o, "lock");
            line(&mut o, &format!("path={}", path));
            for a in args {
                line(&mut o, a);
            }
        }
        Op::Unlock { id, args } => {
            let id = match id {
                IdSource::Path(p) => {
                    run.and_then(|(w, _)| w.truth.ids.get(&bytes(p)).cloned()).unwrap_or_else(|| lock_id(&bytes(p)))
                }
                IdSource::Text(t) => t.clone(),
            };
            line(&mut o, &format!("unlock {}", id));
            for a in args {
                line(&mut o, a);
            }
        }
        Op::List { limit, path, args } => {
            line(&mut o, "list-lock");
            if let Some(l) = limit {
                line(&mut o, &format!("limit={}", l));
            }
            if let Some(p) = path {
                line(&mut o, &format!("path={}", p));
            }
            for a in args {
                line(&mut o, a);
            }
        }
        Op::ListNext { limit } => {
            let (w, i) = run?;
            let c = &w.s[i].client;
            // the answer to the last listing
            let cursor = c.answers.last().and_then(|a| a.arg("next-cursor"))?;
            if c.answers.len() != c.complete_reqs {
                return None;
            }
            line(&mut o, "list-lock");
            if let Some(l) = limit {
                line(&mut o, &format!("limit={}", l));
            }
            line(&mut o, &format!("cursor={}", text(&cursor)));
        }
        Op::Quit => line(&mut o, "quit"),
        Op::Packets(ps) => {
            for p in ps {
                if p == "\u{1}" {
                    o.extend_from_slice(b"0001");
                } else {
                    pkt(&mut o, &bytes(p));
                }
            }
        }
        Op::Raw(h) => return Some(unhex(&h.0)),
    }
    o.extend_from_slice(b"0000");
    Some(o)
}

fn push_input(w: &mut World, i: usize, b: &[u8]) {
    let step = w.step;
    let s = &mut w.s[i];
    let c = &mut s.client;
    for &x in b {
        if let Some((cut, err)) = s.spec.cut {
            if c.raw_sent >= cut {
                c.closed = Some(err);
                break;
            }
        }
        let mut v = x;
        if let Some((at, with)) = s.spec.flip {
            if c.raw_sent == at {
                v = with;
            }
        }
        c.input.push(v);
        c.raw_sent += 1;
    }
    let n = c.input.len();
    c.sent_marks.push((n, step));
    c.scan();
}

/// Sends the next operation.  False: there is none.
fn send_next(w: &mut World, i: usize) -> bool {
    loop {
        let k = w.s[i].client.next_op;
        let op = match w.s[i].spec.ops.get(k) {
            Some(o) => o.clone(),
            None => return false,
        };
        w.s[i].client.next_op += 1;
        let start = w.s[i].client.input.len();
        if let Some(b) = build(w, i, &op) {
            push_input(w, i, &b);
            let end = w.s[i].client.input.len();
            w.s[i].client.ops_sent.push((k, start, end));
            return true;
        }
    }
}

/// Called when the server wants input: lets the client act.  Returns a
/// complaint if the server waits although the client waits for it.
pub fn feed(w: &mut World, i: usize) -> Option<String> {
    loop {
        let c = &w.s[i].client;
        if c.read_pos < c.input.len() || c.closed.is_some() {
            return None;
        }
        if w.s[i].spec.client != Client::Blast && c.greeting.is_none() {
            return Some("the session waits for input before it has sent its greeting".into());
        }
        if !c.lost && c.complete_reqs > c.answers.len() {
            return Some(format!(
                "the session waits for input with {} requests received but only {} answers written",
                c.complete_reqs,
                c.answers.len()
            ));
        }
        let n = match w.s[i].spec.client {
            Client::Lockstep => 1,
            Client::Pipelined(n) => n.max(1) as usize,
            Client::Blast => usize::MAX,
        };
        let think = w.sc.repo.think;
        w.advance(think);
        let mut k = 0;
        while k < n && w.s[i].client.closed.is_none() {
            if !send_next(w, i) {
                let e = w.s[i].spec.cut.map(|c| c.1).filter(|_| false).unwrap_or(0);
                w.s[i].client.closed = Some(e);
                break;
            }
            k += 1;
        }
        if let Some((cut, err)) = w.s[i].spec.cut {
            if w.s[i].client.raw_sent >= cut {
                w.s[i].client.closed = Some(err);
            }
        }
    }
}

pub fn server_reads(w: &mut World, i: usize, buf: &mut [u8], short: usize) -> i64 {
    let step = w.step;
    let max = match w.s[i].spec.chunks {
        _ if step > crate::world::PIECES => usize::MAX,
        Chunks::Whole => usize::MAX,
        Chunks::Max(n) => n.max(1) as usize,
        Chunks::Random { max, .. } => {
            let r = &mut w.s[i].chunk_rng;
            if r.chance(1, 3) {
                r.range(1, 5) as usize
            } else {
                r.range(1, max.max(1) as u64) as usize
            }
        }
    };
    let c = &mut w.s[i].client;
    let avail = c.input.len() - c.read_pos;
    if avail == 0 {
        return -(c.closed.unwrap_or(0) as i64);
    }
    let n = avail.min(buf.len()).min(max).min(short);
    buf[..n].copy_from_slice(&c.input[c.read_pos..c.read_pos + n]);
    c.read_pos += n;
    c.read_marks.push((c.read_pos, step));
    n as i64
}

pub fn server_writes(w: &mut World, i: usize, b: &[u8]) {
    let step = w.step;
    let c = &mut w.s[i].client;
    let before = c.answers.len();
    c.out.extend_from_slice(b);
    c.out_marks.push((c.out.len(), step));
    c.parse_out();
    let new: Vec<Answer> = c.answers[before..].to_vec();
    for a in new {
        if let (Some(id), Some(p)) = (a.arg("id"), a.arg("path")) {
            w.truth.ids.insert(p, text(&id));
        }
    }
}

/// The step at which stream position `pos` (exclusive end) was reached.
pub fn step_of(marks: &[(usize, u64)], pos: usize) -> Option<u64> {
    let k = marks.partition_point(|m| m.0 < pos);
    marks.get(k).map(|m| m.1)
}
