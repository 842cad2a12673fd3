//! Linearizability of the requests on one lock path against a register that is
//! free or held, with optional effects (sessions that were cut off) and a
//! power-loss event that may undo effects nobody has been told about.

use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub time: i64,
    pub owner: String,
}

#[derive(Clone, Debug)]
pub struct Acq {
    pub rec: Option<Rec>,
    pub owner: String,
    pub tmin: i64,
    pub tmax: i64,
}

#[derive(Clone, Debug)]
pub enum K {
    Acquire(usize),
    Release,
    Held(Option<Rec>),
    Free,
    Power,
}

#[derive(Clone, Debug)]
pub struct LOp {
    pub sess: usize,
    /// program order within the session; None: only its interval counts
    pub seq: Option<u64>,
    pub start: u64,
    pub end: u64,
    pub k: K,
    /// may have had no effect
    pub maybe: bool,
    /// the client has its answer: the effect survives a power loss
    pub acked: bool,
    pub what: String,
}

#[derive(PartialEq)]
pub enum Verdict {
    Ok,
    No,
    GaveUp,
}

type St = (u128, Option<u8>, Vec<Option<u8>>);

pub fn check(ops: &[LOp], acqs: &[Acq], records: bool) -> Verdict {
    if ops.len() > 120 || acqs.len() > 250 {
        return Verdict::GaveUp;
    }
    let mut must = 0u128;
    for (i, o) in ops.iter().enumerate() {
        if !o.maybe {
            must |= 1 << i;
        }
    }
    let mut seen: HashSet<St> = HashSet::new();
    let mut stack: Vec<St> = vec![(0, None, vec![])];
    let mut nodes = 0u64;
    while let Some(st) = stack.pop() {
        if st.0 & must == must {
            return Verdict::Ok;
        }
        if !seen.insert(st.clone()) {
            continue;
        }
        nodes += 1;
        if nodes > 300_000 {
            return Verdict::GaveUp;
        }
        let (mask, holder, ref undo) = st;
        let mut min_end = u64::MAX;
        let mut max_start = 0;
        for (i, o) in ops.iter().enumerate() {
            if mask >> i & 1 == 1 {
                max_start = max_start.max(o.start);
            } else if !o.maybe {
                min_end = min_end.min(o.end);
            }
        }
        for (i, o) in ops.iter().enumerate() {
            if mask >> i & 1 == 1 || o.start > min_end || o.end < max_start {
                continue;
            }
            if let Some(q) = o.seq {
                // program order
                if ops.iter().enumerate().any(|(j, p)| {
                    mask >> j & 1 == 0 && !p.maybe && p.sess == o.sess && p.seq.map(|x| x < q).unwrap_or(false)
                }) {
                    continue;
                }
                if ops.iter().enumerate().any(|(j, p)| {
                    mask >> j & 1 == 1 && p.sess == o.sess && p.seq.map(|x| x > q).unwrap_or(false)
                }) {
                    continue;
                }
            }
            let m2 = mask | 1 << i;
            let mut apply = |new: Option<u8>| {
                let mut u = undo.clone();
                if o.acked {
                    u.clear();
                } else {
                    u.push(holder);
                }
                stack.push((m2, new, u));
            };
            match &o.k {
                K::Acquire(a) => {
                    if holder.is_none() {
                        apply(Some(*a as u8));
                    }
                }
                K::Release => {
                    if holder.is_some() {
                        apply(None);
                    }
                }
                K::Held(r) => {
                    if let Some(h) = holder {
                        let ok = match (r, records) {
                            (Some(r), true) => {
                                let q = &acqs[h as usize];
                                match &q.rec {
                                    Some(x) => x == r,
                                    None => r.owner == q.owner && r.time >= q.tmin && r.time <= q.tmax,
                                }
                            }
                            _ => true,
                        };
                        if ok {
                            stack.push((m2, holder, undo.clone()));
                        }
                    }
                }
                K::Free => {
                    if holder.is_none() {
                        stack.push((m2, holder, undo.clone()));
                    }
                }
                K::Power => {
                    let mut all = undo.clone();
                    all.push(holder);
                    for h in all {
                        stack.push((m2, h, vec![]));
                    }
                }
            }
        }
    }
    Verdict::No
}

#[cfg(test)]
mod tests {
    use super::*;
    fn op(sess: usize, q: u64, s: u64, e: u64, k: K) -> LOp {
        LOp { sess, seq: Some(q), start: s, end: e, k, maybe: false, acked: true, what: String::new() }
    }
    fn a() -> Vec<Acq> {
        (0..4).map(|i| Acq { rec: Some(Rec { time: i, owner: "x".into() }), owner: "x".into(), tmin: i, tmax: i }).collect()
    }
    #[test]
    fn basics() {
        // two overlapping acquisitions with no release
        let v = vec![op(0, 0, 1, 10, K::Acquire(0)), op(1, 0, 2, 9, K::Acquire(1))];
        assert!(check(&v, &a(), true) == Verdict::No);
        let v = vec![op(0, 0, 1, 10, K::Acquire(0)), op(1, 0, 2, 9, K::Held(Some(Rec { time: 0, owner: "x".into() })))];
        assert!(check(&v, &a(), true) == Verdict::Ok);
        let v = vec![op(0, 0, 1, 2, K::Acquire(0)), op(1, 0, 3, 4, K::Free)];
        assert!(check(&v, &a(), true) == Verdict::No);
        // a lost unacknowledged acquisition
        let mut x = op(0, 0, 1, 5, K::Acquire(0));
        x.acked = false;
        x.maybe = true;
        let v = vec![x, op(1, 0, 2, 4, K::Held(None)), op(9, 0, 5, 5, K::Power), op(2, 0, 6, 7, K::Free)];
        assert!(check(&v, &a(), true) == Verdict::Ok);
        let v = vec![op(0, 0, 1, 3, K::Acquire(0)), op(9, 0, 5, 5, K::Power), op(2, 0, 6, 7, K::Free)];
        assert!(check(&v, &a(), true) == Verdict::No);
    }
}
