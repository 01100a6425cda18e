//! Recorded histories of concurrent increments and decrements, checked after the fact.
use crate::{Rng, Seen, Verdict};
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering};
use std::sync::Barrier;
use std::collections::VecDeque;
use wimbd::ngrams::NgramCounter;

#[derive(Clone, Copy, Debug)]
enum Op { Add(u64), Sub(u64), Query }

#[derive(Clone, Copy, Debug)]
struct Ev { g: usize, op: Op, begin: u64, end: u64, got: u64 }

fn gram(g: usize) -> Vec<String> { (0..1 + g % 3).map(|i| format!("w{}x{}", g, i)).collect() }

pub fn scenario(rng: &mut Rng, seen: &mut Seen, small: bool) -> Verdict {
    match rng.below(4) {
        0 => run_u8(rng, seen, small),
        1 => run_u16(rng, seen, small),
        2 => run_u32(rng, seen, small),
        _ => run_u64(rng, seen, small),
    }
}

macro_rules! runner {
    ($name:ident, $atomic:ty, $int:ty) => {
        fn $name(rng: &mut Rng, seen: &mut Seen, small: bool) -> Verdict {
            let max = <$int>::MAX as u64;
            let threads = if small { rng.range(2, 3) } else { rng.pick(&[2, 2, 3, 4, 8]) };
            let per = if small { rng.range(1, 4) } else { rng.pick(&[1, 3, 10, 60]) };
            let ngrams = rng.pick(&[1, 1, 2, 3, 5]);
            let hashes = rng.pick(&[1usize, 1, 2, 3, 5, 8]);
            let crowded = rng.chance(25);
            let size = if crowded { rng.range(1, 9) } else if small { 512 } else { rng.pick(&[4096usize, 16384]) };
            let seed = rng.next();
            let down = rng.chance(40);
            let init: u64 = match rng.below(5) {
                0 | 1 => if down { max } else { 0 },
                2 => rng.next() % 50,
                3 => max - rng.next() % 50,
                _ => if down { 20 } else { 0 },
            };
            let by_max: u64 = match rng.below(5) { 0 | 1 => 1, 2 => 3, 3 => 200, _ => max };
            // Does any slot get shared?  A second counter with the same hash functions tells.
            let twin: NgramCounter<$atomic> = NgramCounter::new(size, hashes, Some(seed), 0).map_err(|e| e.to_string())?;
            for g in 0..ngrams { twin.increment(&gram(g)[..], 1); }
            let exact = twin.nonzero() == (ngrams * hashes) as u64;
            // The number of slots that hold a count, where it is known.
            let table = if small || rng.chance(90) { rng.range(1, 70) } else { size };
            let t: NgramCounter<$atomic> = NgramCounter::new(table, hashes, Some(seed), max as $int).map_err(|e| e.to_string())?;
            let empty: NgramCounter<$atomic> = NgramCounter::new(table, hashes, Some(seed), 0).map_err(|e| e.to_string())?;
            if t.nonzero() != table as u64 || empty.nonzero() != 0 { return Err(format!("{} of {} filled and {} of as many empty slots are said to hold a count", t.nonzero(), table, empty.nonzero())); }
            let mut gone = 0;
            for g in 0..rng.range(1, 40) {
                let left = t.decrement(&gram(g)[..], max as $int) as u64;
                let now = table as u64 - t.nonzero();
                if left != 0 || now < gone.max(1) || now > gone + hashes as u64 { return Err(format!("{} of {} slots empty, {} before clearing the {} slots of one more n-gram", now, table, gone, hashes)); }
                gone = now;
            }
            seen.count("slot_totals", 1);
            let c: NgramCounter<$atomic> = NgramCounter::new(size, hashes, Some(seed), init as $int).map_err(|e| e.to_string())?;
            let plan: Vec<Vec<(usize, Op)>> = (0..threads).map(|_| (0..per).map(|_| {
                let g = rng.below(ngrams);
                let by = if by_max == 1 { 1 } else { rng.next() % by_max + if rng.chance(90) { 1 } else { 0 } };
                let by = by.min(max);
                (g, if rng.chance(15) { Op::Query } else if down { Op::Sub(by) } else { Op::Add(by) })
            }).collect()).collect();
            let clock = AtomicU64::new(1);
            let racing = AtomicUsize::new(0);
            let barrier = Barrier::new(threads);
            let mut all: Vec<Ev> = Vec::new();
            std::thread::scope(|s| {
                let hs: Vec<_> = plan.iter().map(|ops| {
                    let (c, clock, barrier, racing) = (&c, &clock, &barrier, &racing);
                    s.spawn(move || {
                        let grams: Vec<Vec<String>> = (0..ngrams).map(gram).collect();
                        let deques: Vec<VecDeque<String>> = grams.iter().map(|g| g.iter().cloned().collect()).collect();
                        let mut out = Vec::with_capacity(ops.len());
                        barrier.wait();
                        for (i, &(g, op)) in ops.iter().enumerate() {
                            let begin = clock.fetch_add(1, Ordering::SeqCst);
                            let got = match op {
                                Op::Add(by) => if i % 2 == 0 { c.increment(&grams[g][..], by as $int) } else { c.increment(&deques[g], by as $int) },
                                Op::Sub(by) => if i % 2 == 0 { c.decrement(&grams[g][..], by as $int) } else { c.decrement(&deques[g], by as $int) },
                                Op::Query => c.max_count(&grams[g][..]),
                            } as u64;
                            let end = clock.fetch_add(1, Ordering::SeqCst);
                            if end != begin + 1 { racing.fetch_add(1, Ordering::Relaxed); }
                            out.push(Ev { g, op, begin, end, got });
                        }
                        out
                    })
                }).collect();
                for h in hs { all.extend(h.join().unwrap()); }
            });
            seen.count("operations", all.len() as u64);
            seen.count("overlapping_operations", racing.load(Ordering::Relaxed) as u64);
            seen.count(if exact { "histories_without_shared_slots" } else { "histories_with_shared_slots" }, 1);
            seen.count(if down { "decrement_histories" } else { "increment_histories" }, 1);
            let ctx = || format!("{} bits, {} threads x {} operations, {} n-grams, {} hash functions, {} slots, initial {}, {}", <$int>::BITS, threads, per, ngrams, hashes, size, init, if exact { "no shared slot" } else { "shared slots" });
            let mut order: Vec<(u64, usize)> = all.iter().map(|e| (e.begin, e.g)).collect();
            order.sort();
            seen.key((threads, per, hashes, size, init, down, order));
            if seen.sample.is_empty() { seen.sample = ctx(); }
            let amount = |e: &Ev| match e.op { Op::Add(b) | Op::Sub(b) => b as u128, Op::Query => 0 };
            let up = |x: u128| -> u64 { (init as u128 + x).min(max as u128) as u64 };
            let dn = |x: u128| -> u64 { (init as u128).saturating_sub(x) as u64 };
            for g in 0..ngrams {
                let mine: Vec<&Ev> = all.iter().filter(|e| e.g == g).collect();
                let total: u128 = mine.iter().map(|e| amount(e)).sum();
                let fin_min = if !down { c.increment(&gram(g)[..], 0) as u64 } else { c.decrement(&gram(g)[..], 0) as u64 };
                let fin_max = c.max_count(&gram(g)[..]) as u64;
                let want = if down { dn(total) } else { up(total) };
                if !down && (fin_min < want || fin_max < want) { return Err(format!("n-gram {} ends with count {} (maximum {}), although its increments make {}: lost update; {}", g, fin_min, fin_max, want, ctx())); }
                if down && (fin_min > want || fin_max > want) { return Err(format!("n-gram {} ends with count {} (maximum {}), although its decrements leave {}: lost update; {}", g, fin_min, fin_max, want, ctx())); }
                if exact && (fin_min != want || fin_max != want) { return Err(format!("n-gram {} ends with count {} (maximum {}) instead of {}; {}", g, fin_min, fin_max, want, ctx())); }
                if want == max && !down || want == 0 && down { seen.count("saturated", 1); }
                for e in &mine {
                    let before: u128 = mine.iter().filter(|f| f.end < e.begin).map(|f| amount(f)).sum::<u128>() + amount(e);
                    let begun: u128 = mine.iter().filter(|f| f.begin < e.end).map(|f| amount(f)).sum::<u128>();
                    let (lo, hi) = if down { (dn(begun), dn(before)) } else { (up(before), up(begun)) };
                    if !down && e.got < lo || down && e.got > hi {
                        return Err(format!("{:?} returned {}, but the completed operations alone make {}; {}", e, e.got, if down { hi } else { lo }, ctx()));
                    }
                    if exact && (e.got > hi || e.got < lo) {
                        return Err(format!("{:?} returned {}, which is outside [{}, {}]; {}", e, e.got, lo, hi, ctx()));
                    }
                }
                let upd: Vec<&&Ev> = mine.iter().filter(|e| !matches!(e.op, Op::Query)).collect();
                if !upd.is_empty() && !upd.iter().any(|e| if down { e.got <= want } else { e.got >= want }) {
                    return Err(format!("no update of n-gram {} returned its final count {} (best {:?}); {}", g, want, upd.iter().map(|e| e.got).max(), ctx()));
                }
            }
            Ok(())
        }
    };
}

runner!(run_u8, AtomicU8, u8);
runner!(run_u16, AtomicU16, u16);
runner!(run_u32, AtomicU32, u32);
runner!(run_u64, AtomicU64, u64);
