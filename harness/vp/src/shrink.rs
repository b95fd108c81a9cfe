use std::time::{Duration, Instant};

/// Minimises a choice list while `fails` keeps returning the actually used choices of a failing run.
pub fn shrink(
    mut best: Vec<u64>,
    budget: Duration,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let start = Instant::now();
    let over = || start.elapsed() > budget;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);

    loop {
        let before = best.clone();

        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if over() {
                    return best;
                }
                let end = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[end..]);
                match fails(&cand) {
                    Some(used) if better(&used, &best) => best = used,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size = if size > 8 { size / 2 } else { size - 1 };
        }

        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if over() {
                    return best;
                }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    if let Some(used) = fails(&cand) {
                        if better(&used, &best) {
                            best = used;
                        }
                    }
                }
                i += size;
            }
        }

        // reduce single values; also try reducing a value together with deleting its successor(s)
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                if over() {
                    return best;
                }
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                match fails(&cand) {
                    Some(used) if better(&used, &best) => {
                        best = used;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            if i < best.len() && best[i] > 0 {
                for del in 1..=6usize {
                    if over() || i + 1 + del > best.len() {
                        break;
                    }
                    let mut cand = best.clone();
                    cand[i] -= 1;
                    cand.drain(i + 1..i + 1 + del);
                    if let Some(used) = fails(&cand) {
                        if better(&used, &best) {
                            best = used;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }

        if best == before {
            return best;
        }
    }
}
