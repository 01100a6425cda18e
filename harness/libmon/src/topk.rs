//! Insertion sequences into the top-k collection against a map of the best offers.
use crate::{Rng, Seen, Verdict};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering};
use wimbd::ngrams::TopKNgrams;

pub fn scenario(rng: &mut Rng, seen: &mut Seen, small: bool) -> Verdict {
    match rng.below(3) { 0 => u8s(rng, seen, small), 1 => u32s(rng, seen, small), _ => u64s(rng, seen, small) }
}

macro_rules! runner {
    ($name:ident, $atomic:ty, $int:ty) => {
        fn $name(rng: &mut Rng, seen: &mut Seen, small: bool) -> Verdict {
            let large = !small && rng.below(700) == 0;
            let k = if large { rng.pick(&[255usize, 256, 257, 1024, 4097, 65535, 65537, 70000]) } else { rng.pick(&[1usize, 1, 2, 3, 5, 10, 50]) };
            let universe = if large { rng.pick(&[k + 1, 2 * k + 1]) } else { rng.pick(&[1usize, 2, k, k + 1, 2 * k + 1, 40]) };
            let top = rng.pick(&[1u64, 2, 3, 10, 200, <$int>::MAX as u64]).min(<$int>::MAX as u64);
            let steps = if small { rng.range(1, 20) } else if large { 3 * k } else { rng.pick(&[1usize, 5, 30, 200, 600]) };
            let mut t: TopKNgrams<String, $atomic> = TopKNgrams::new(k);
            let published = t.min_count();
            let mut rounds = rng.range(1, 3);
            let style = rng.below(4);
            while rounds > 0 {
                rounds -= 1;
                let mut best: HashMap<Vec<String>, u64> = HashMap::new();
                let mut log: Vec<(usize, u64)> = Vec::new();
                for i in 0..steps {
                    let g = rng.below(universe);
                    let c = match style {
                        0 => 1 + rng.next() % top,
                        1 => (1 + (i as u64) / 3).min(top),                            // rising, as when counting
                        2 => top.saturating_sub((i as u64) / 3).max(1),                 // falling
                        _ => if rng.chance(80) { *best.get(&gram(g)).unwrap_or(&0) + 1 } else { 1 + rng.next() % top },
                    }.min(<$int>::MAX as u64);
                    t.insert(gram(g), c as $int);
                    log.push((g, c));
                    let b = best.entry(gram(g)).or_insert(0);
                    *b = (*b).max(c);
                    seen.count("insertions", 1);
                    let m = published.load(Ordering::SeqCst) as u64;
                    if large && i % (k / 4 + 1) != 0 { continue; }
                    let limit = if best.len() < k { 1 } else { kth(&best, k) };
                    if m > limit { return Err(format!("published minimum {} although an offer of {} would still be accepted (k={}, offers {:?})", m, limit, k, log)); }
                }
                let out = t.drain();
                let got: Vec<(Vec<String>, u64)> = out.iter().map(|(g, c)| ((**g).clone(), *c as u64)).collect();
                if got.len() != best.len().min(k) { return Err(format!("{} n-grams kept, expected {} (k={}, offers {:?})", got.len(), best.len().min(k), k, log)); }
                if got.windows(2).any(|w| w[0].1 < w[1].1) { return Err(format!("not in descending order: {:?} (k={}, offers {:?})", got, k, log)); }
                let mut names: Vec<&Vec<String>> = got.iter().map(|(g, _)| g).collect();
                names.sort();
                if names.windows(2).any(|w| w[0] == w[1]) { return Err(format!("an n-gram is kept twice: {:?} (k={}, offers {:?})", got, k, log)); }
                for (g, c) in &got {
                    if best.get(g) != Some(c) { return Err(format!("{:?} kept with {}, best offer {:?} (k={}, offers {:?})", g, c, best.get(g), k, log)); }
                }
                let kept: std::collections::HashSet<&Vec<String>> = got.iter().map(|(g, _)| g).collect();
                let low = got.last().map(|x| x.1).unwrap_or(0);
                for (g, b) in &best {
                    if *b > low && !kept.contains(g) { return Err(format!("{:?} offered with {} was discarded, while {} is kept (k={}, offers {:?})", g, b, low, k, log)); }
                }
                if !t.drain().is_empty() { return Err("a drained collection is not empty".into()); }
                if published.load(Ordering::SeqCst) as u64 > 1 { return Err(format!("published minimum {} after draining", published.load(Ordering::SeqCst))); }
                seen.count("drains", 1);
                if large { seen.count("large_collections", 1); }
                if best.len() > k { seen.count("drains_after_evictions", 1); }
                seen.key((k, log));
            }
            if seen.sample.is_empty() { seen.sample = format!("k={} n-grams={} insertions={} style={}", k, universe, steps, style); }
            Ok(())
        }
    };
}

fn gram(g: usize) -> Vec<String> { (0..1 + g % 2).map(|i| format!("t{}", g * 7 % 41 + i)).collect::<Vec<_>>().into_iter().chain([g.to_string()]).collect() }

fn kth(best: &HashMap<Vec<String>, u64>, k: usize) -> u64 {
    let mut v: Vec<u64> = best.values().cloned().collect();
    v.sort_unstable_by(|a, b| b.cmp(a));
    v[k - 1]
}

runner!(u8s, AtomicU8, u8);
runner!(u32s, AtomicU32, u32);
runner!(u64s, AtomicU64, u64);
