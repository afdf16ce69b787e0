//! Greedy reduction of a failing case, keeping it valid.
use crate::case::Case;

pub fn shrink(c: &Case, budget: usize, mut fails: impl FnMut(&Case) -> bool) -> Case {
    let mut best = c.clone();
    let mut left = budget;
    let mut try_it = |cand: Case, best: &mut Case, left: &mut usize| -> bool {
        if *left == 0 || cand.invalid().is_some() {
            return false;
        }
        *left -= 1;
        if fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    loop {
        let mut any = false;
        // drop holes
        let mut i = 0;
        while i < best.holes.len() {
            let mut d = best.clone();
            d.holes.remove(i);
            if try_it(d, &mut best, &mut left) {
                any = true;
            } else {
                i += 1;
            }
        }
        // drop blocks of Steiner points
        let mut blk = best.steiner.len().max(1);
        while blk >= 1 {
            let mut i = 0;
            while i < best.steiner.len() {
                let mut d = best.clone();
                let e = (i + blk).min(d.steiner.len());
                d.steiner.drain(i..e);
                if try_it(d, &mut best, &mut left) {
                    any = true;
                } else {
                    i += blk;
                }
            }
            if blk == 1 {
                break;
            }
            blk /= 2;
        }
        // drop vertices
        for ring in 0..=best.holes.len() {
            let len = if ring == 0 { best.outer.len() } else { best.holes[ring - 1].len() };
            let mut blk = (len / 4).next_power_of_two().max(8);
            while blk >= 1 {
                let mut i = 0;
                loop {
                    let n = if ring == 0 { best.outer.len() } else { best.holes[ring - 1].len() };
                    if i >= n || n < 3 + blk.min(n - i) {
                        break;
                    }
                    let mut d = best.clone();
                    {
                        let v = if ring == 0 { &mut d.outer } else { &mut d.holes[ring - 1] };
                        let e = (i + blk).min(v.len());
                        v.drain(i..e);
                    }
                    if try_it(d, &mut best, &mut left) {
                        any = true;
                    } else {
                        i += (blk / 8).max(1);
                    }
                }
                blk /= 2;
            }
        }
        if !any || left == 0 {
            break;
        }
    }
    // round coordinates
    for digits in [0, 1, 2, 3] {
        let s = 10f64.powi(digits);
        let mut d = best.clone();
        d.map(|p| crate::case::rnd(((p.0 * s).round() / s, (p.1 * s).round() / s)));
        if d != best && try_it(d, &mut best, &mut left) {
            break;
        }
    }
    best
}
