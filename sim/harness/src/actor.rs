use crate::rng::*;
use crate::world::*;

pub fn act(w: &mut World, i: usize) {
    crate::gitrepo::act(w, i);
}

/// One step of the pager: reads a piece, or waits, or ends.
pub fn page(w: &mut World, i: usize) {
    w.step += 1;
    let t = w.tick;
    w.advance(t);
    let term = w.sc.repo.git.as_ref().and_then(|g| g.term.clone()).unwrap_or_default();
    let p = match w.pager.pipe {
        Some(p) => p,
        None => {
            w.end_session(i, End::Exit(0));
            return;
        }
    };
    w.hash = fnv(w.hash, b"page");
    w.inter = fnv(w.inter, &[i as u8, 0xab]);
    let quit = term.quits.map(|q| w.pager.got.len() >= q as usize).unwrap_or(false);
    if quit || w.pager.idle > term.slow {
        w.pipes[p].readers -= 1;
        w.end_session(i, End::Exit(term.status));
        w.wake();
    } else if !w.pipes[p].data.is_empty() {
        let n = w.pipes[p].data.len().min(term.chunk.max(1) as usize);
        let b: Vec<u8> = w.pipes[p].data.drain(..n).collect();
        w.note(format!("s{} reads {:?}", i, String::from_utf8_lossy(&b)));
        w.pager.got.extend(&b);
        let m = (w.pager.got.len(), w.step);
        w.pager.marks.push(m);
        w.wake();
    } else if w.pipes[p].writers == 0 {
        // all is shown; the user looks at it
        if !w.pager.eof {
            w.note(format!("s{} reads the end", i));
        }
        w.pager.eof = true;
        w.pager.idle += 1;
    } else {
        w.s[i].blocked = true;
        if w.step > w.sc.step_limit {
            crate::oracle::step_limit(w, i, "pager");
            w.stop = true;
        }
    }
}
