//! The slice cursor against positions -1 (before the first) to the length (after the last): C18.
use crate::rng::Rng;
use crate::{ck, Args, Env, Op, Res};
use momentous::verify_hooks::SliceWalk;

fn look(c: &SliceWalk, s: &[u32], p: isize) -> Res {
    let at = |i: isize| if i < 0 { None } else { s.get(i as usize).copied() };
    let n = s.len() as isize;
    ck!(c.pos(s.len()) == p, "position {}, should be {p}", c.pos(s.len()));
    ck!(c.current() == at(p), "current {:?}, should be {:?}", c.current(), at(p));
    ck!(c.peek_next() == at(p + 1), "peek_next {:?}, should be {:?}", c.peek_next(), at(p + 1));
    ck!(c.peek_prev() == at(p - 1), "peek_prev {:?}, should be {:?}", c.peek_prev(), at(p - 1));
    ck!(c.is_at_start() == (p == -1), "at_start {}", c.is_at_start());
    ck!(c.is_at_end() == (p == n), "at_end {}", c.is_at_end());
    ck!(c.pos(s.len()) == p, "looking moves");
    Ok(())
}

fn walk(a: &Args, _: &Env) -> Res {
    let n = a[0] as usize;
    let s: Vec<u32> = (0..n as u32).map(|i| i * 7 + 1).collect();
    let at = |i: isize| if i < 0 { None } else { s.get(i as usize).copied() };
    let len = n as isize;
    let mut r = Rng(a[1] as u64);
    let (mut c, mut p) = match r.below(3) {
        0 => (SliceWalk::at_start(&s), -1),
        1 => (SliceWalk::at_end(&s), len),
        _ if n > 0 => {
            let i = r.below(n as u64) as usize;
            (SliceWalk::with_pos(&s, i), i as isize)
        }
        _ => (SliceWalk::at_start(&s), -1),
    };
    look(&c, &s, p)?;
    let mut done = String::new();
    for _ in 0..a[2] {
        let k = match r.below(4) {
            0 => r.below(n as u64 + 3) as usize,
            1 => r.below(3) as usize,
            2 => usize::MAX - r.below(3) as usize,
            _ => r.int(&[], 0, usize::MAX as i128) as usize,
        };
        match r.below(6) {
            0 | 1 => {
                done.push_str(" next");
                let g = c.next();
                p = (p + 1).min(len);
                ck!(g == at(p), "after{done}: {g:?}, should be {:?}", at(p));
            }
            2 | 3 => {
                done.push_str(" prev");
                let g = c.prev();
                p = (p - 1).max(-1);
                ck!(g == at(p), "after{done}: {g:?}, should be {:?}", at(p));
            }
            4 => {
                done.push_str(&format!(" advance_by({k})"));
                let can = (len - 1 - p).max(0) as usize;
                let go = can.min(k);
                let g = c.advance_by(k).map_err(|e| e.get()).err().unwrap_or(0);
                p += go as isize;
                ck!(g == k - go, "after{done}: {g} steps not taken, should be {}", k - go);
            }
            _ => {
                if r.chance(2) {
                    done.push_str(&format!(" revert_by({k})"));
                    let can = p.max(0) as usize;
                    let go = can.min(k);
                    let g = c.revert_by(k).map_err(|e| e.get()).err().unwrap_or(0);
                    p -= go as isize;
                    ck!(g == k - go, "after{done}: {g} steps not taken, should be {}", k - go);
                } else {
                    p = r.range(-1, len as i64) as isize;
                    done.push_str(&format!(" set_pos({p})"));
                    c.set_pos(p, n);
                    let far = (n + 1 + r.below(3) as usize).max(k.min(isize::MAX as usize)) as isize;
                    ck!(crate::panics(|| c.set_pos(far, n)), "after{done}: the cursor can be moved to position {far}");
                }
            }
        }
        look(&c, &s, p).map_err(|e| format!("after{done}: {e}"))?;
    }
    Ok(())
}
fn g_walk(r: &mut Rng, _: &Env) -> Args {
    let mut a = [0; 12];
    a[0] = if r.chance(8) { r.below(2000) } else { r.below(9) } as i128;
    a[1] = r.next() as i128;
    a[2] = r.range(1, 14) as i128;
    a
}
pub const WALK: Op = Op { name: "walk", args: &["length", "seed", "steps"], gen: g_walk, run: walk };
