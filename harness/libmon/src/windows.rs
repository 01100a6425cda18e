//! N-gram iteration.
use crate::{Rng, Seen, Verdict};
use wimbd::ngrams::{ngrams, Ngram};

pub fn scenario(rng: &mut Rng, seen: &mut Seen, small: bool) -> Verdict {
    let len = if small { rng.range(0, 6) } else { rng.pick(&[0usize, 1, 2, 3, 5, 10, 50, 300]) + rng.below(3) };
    let many = !small && rng.below(400) == 0;
    let len = if many { 65530 + rng.below(5000) } else { len };
    let n = if many { rng.pick(&[1, 2, 5, len - 1, len, len + 1]) } else { match rng.below(6) { 0 => 1, 1 => 2, 2 => rng.range(1, 10), 3 => len.max(1), 4 => len + rng.range(1, 3), _ => rng.pick(&[3usize, 5, 100]) } };
    let vocab = rng.pick(&[1usize, 2, 5, 1000]);
    let toks: Vec<String> = (0..len).map(|_| format!("w{}", rng.below(vocab))).collect();
    let want: Vec<Vec<String>> = if len >= n { (0..=len - n).map(|i| toks[i..i + n].to_vec()).collect() } else { vec![] };
    let what = rng.below(4);
    let desc = format!("{} tokens, n={}, source {}", len, n, ["vector", "text helper", "filtered iterator", "borrowed"][what]);
    let mut got: Vec<Vec<String>> = Vec::new();
    let mut after = 0;
    macro_rules! take { ($it:expr, $conv:expr) => {{
        let mut it = $it;
        while let Some(w) = it.next() { got.push($conv(w)); if got.len() > want.len() + 3 { break; } }
        for _ in 0..3 { if it.next().is_some() { after += 1; } }
    }}; }
    match what {
        0 => take!(toks.clone().into_iter().ngrams(n), |w| w),
        1 => { let text = toks.join([" ", "  ", "\n", " \t"][rng.below(4)]); take!(ngrams(&text, n, &None).map_err(|e| e.to_string())?, |w| w) }
        2 => { let mut mixed = Vec::new(); for t in &toks { if rng.chance(30) { mixed.push(String::new()); } mixed.push(t.clone()); } take!(mixed.into_iter().filter(|t| !t.is_empty()).ngrams(n), |w| w) }
        _ => take!(toks.iter().map(|s| s.as_str()).ngrams(n), |w: Vec<&str>| w.into_iter().map(String::from).collect()),
    }
    seen.count("windows", want.len() as u64);
    seen.key((len, n, what, vocab));
    if want.is_empty() { seen.count("shorter_than_n", 1); }
    if seen.sample.is_empty() { seen.sample = desc.clone(); }
    if got != want { return Err(format!("{}: got {} windows {:?}.., expected {} {:?}..", desc, got.len(), got.iter().take(3).collect::<Vec<_>>(), want.len(), want.iter().take(3).collect::<Vec<_>>())); }
    if after > 0 { return Err(format!("{}: yields again after the end", desc)); }
    // skipping, stepping and stopping early leave the remaining windows as they were
    for _ in 0..4 {
        let mut it = toks.clone().into_iter().ngrams(n);
        let (mut at, mut how) = (0, Vec::new());
        for _ in 0..rng.range(1, 5) {
            let far = rng.chance(20);
            let k = rng.below(if far { len + 2 } else { 4 });
            let (name, got) = match rng.below(5) {
                0 => { at += k; ("nth", it.nth(k)) }
                1 => { at += k; ("by_ref().skip", it.by_ref().skip(k).next()) }
                2 => { let s = k.max(1); let a: Vec<_> = it.by_ref().take(2 * s).step_by(s).collect(); let b: Vec<_> = (0..2).map(|i| at + i * s).filter(|&i| i < want.len()).map(|i| want[i].clone()).collect(); if a != b { return Err(format!("{}: after {:?}, two steps of {} yield {:?}, expected {:?}", desc, how, s, a, b)); } at = (at + 2 * s).min(want.len()); ("step_by", it.next()) }
                3 => { let a: Vec<_> = it.by_ref().take(k).collect(); if a[..] != want[at.min(want.len())..(at + k).min(want.len())] { return Err(format!("{}: after {:?}, take({}) yields {:?}", desc, how, k, a)); } at += k; ("take", it.next()) }
                _ => ("next", it.next()),
            };
            how.push((name, k));
            if got.as_ref() != want.get(at) { return Err(format!("{}: after {:?} comes {:?}, expected {:?}", desc, how, got, want.get(at))); }
            at += 1;
        }
        let at = at.min(want.len());
        let (lo, hi) = it.size_hint();
        if lo > want.len() - at || hi.map(|h| h < want.len() - at).unwrap_or(false) { return Err(format!("{}: size hint ({}, {:?}) for {} remaining windows", desc, lo, hi, want.len() - at)); }
        let rest = match rng.below(4) {
            0 => { let c = it.count(); if c != want.len() - at { return Err(format!("{}: counts {} remaining windows, expected {}", desc, c, want.len() - at)); } continue; }
            1 => { let l = it.last(); if l.as_ref() != want[at..].last() { return Err(format!("{}: last is {:?}", desc, l)); } continue; }
            2 => it.fold(Vec::new(), |mut v, w| { v.push(w); v }),
            _ => it.collect::<Vec<_>>(),
        };
        if rest[..] != want[at..] { return Err(format!("{}: after {:?} remain {} windows {:?}.., expected {}", desc, how, rest.len(), rest.first(), want.len() - at)); }
        seen.count("walks", 1);
    }
    // size bounds that the adaptor claims have to be true
    let it = toks.clone().into_iter().ngrams(n);
    let (lo, hi) = it.size_hint();
    if lo > want.len() || hi.map(|h| h < want.len()).unwrap_or(false) { return Err(format!("{}: size hint ({}, {:?}) for {} windows", desc, lo, hi, want.len())); }
    Ok(())
}
