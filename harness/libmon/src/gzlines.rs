//! The gzip line reader against the bytes that were compressed.
use crate::{Rng, Seen, Verdict};
use flate2::{write::GzEncoder, Compression, GzBuilder};
use std::io::Write;
use std::rc::Rc;
use wimbd::io::GzBufReader;

const CH: &[&str] = &["a", "b", " ", "é", "東", "👍", "\u{7ff}", "\u{ffff}", "\r", "\u{2028}", "\u{85}", "\0", "\u{b}", "{\"text\": \"x\"}", "zzzzzzzz"];

fn content(rng: &mut Rng, small: bool) -> Vec<u8> {
    // now and then more lines than 16 bits count
    let many = !small && rng.below(250) == 0;
    let lines = if small { rng.range(0, 4) } else if many { 65530 + rng.below(6000) } else { rng.pick(&[0usize, 1, 2, 3, 10, 100]) };
    let mut out = Vec::new();
    let huge = if !small && rng.chance(1) { rng.below(lines.min(20) + 1) } else { usize::MAX };
    for i in 0..lines {
        let len = if small || many { rng.range(0, 5) } else { match rng.below(12) { 0 | 1 => 0, 2 => rng.range(1000, 5000), 3 => rng.range(8180, 8200), 4 if lines < 20 => rng.range(20000, 70000), _ => rng.range(0, 60) } };
        // lines around the sizes that buffers or limits might have
        let len = if i == huge { (1usize << rng.range(16, 22)) - 4 + rng.range(0, 8) } else { len };
        let mono = rng.chance(30);
        let one = rng.pick(CH);
        let target = out.len() + len;
        while out.len() < target { out.extend_from_slice(if mono { one } else { rng.pick(CH) }.as_bytes()); }
        if i + 1 < lines || rng.chance(75) { out.push(b'\n'); }
    }
    out
}

fn member(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let level = Compression::new(rng.pick(&[0u32, 1, 6, 9]));
    let mut b = GzBuilder::new();
    if rng.chance(20) { b = b.filename("name.json"); }
    if rng.chance(10) { b = b.comment("a comment"); }
    if rng.chance(10) { b = b.extra(vec![1, 2, 2, 0, 9, 9]); }
    if rng.chance(20) { b = b.mtime(12345); }
    let mut e: GzEncoder<Vec<u8>> = b.write(Vec::new(), level);
    let mut rest = data;
    while !rest.is_empty() {
        let n = if rng.chance(70) { rest.len() } else { rng.range(1, rest.len()) };
        e.write_all(&rest[..n]).unwrap();
        if rng.chance(20) { e.flush().unwrap(); }
        rest = &rest[n..];
    }
    e.finish().unwrap()
}

fn lines(data: &[u8]) -> Vec<Vec<u8>> {
    data.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect()
}

pub fn scenario(rng: &mut Rng, seen: &mut Seen, dir: &str, small: bool) -> Verdict {
    let mut data = content(rng, small);
    let mut bad_utf8 = false;
    if rng.chance(12) {
        let junk: &[u8] = rng.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"\xed\xa0\x80"[..], &b"\x80\n"[..], &b"\xf5\x80\x80\x80"[..]]);
        let text = std::str::from_utf8(&data).unwrap();
        let mut at = rng.range(0, data.len());
        while !text.is_char_boundary(at) { at -= 1; }
        data.splice(at..at, junk.iter().cloned());
        bad_utf8 = std::str::from_utf8(&data).is_err();
    }
    let nm = if !small && rng.chance(1) { rng.range(100, 700) } else { rng.pick(&[1usize, 1, 2, 3, 6]) };
    let mut cuts: Vec<usize> = (1..nm).map(|_| rng.range(0, data.len())).collect();
    cuts.sort();
    cuts.push(data.len());
    let (mut z, mut last, mut bounds) = (Vec::new(), 0, vec![]);
    for c in cuts { z.extend(member(rng, &data[last..c])); bounds.push(z.len()); last = c; }
    let want = lines(&data);
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum Damage { None, Cut, Flip, Tail, Garbage }
    let damage = if bad_utf8 { Damage::None } else { rng.pick(&[Damage::None, Damage::None, Damage::None, Damage::Cut, Damage::Flip, Damage::Tail, Damage::Garbage]) };
    let mut must_fail = bad_utf8;
    let mut f = z.clone();
    match damage {
        Damage::None => {}
        Damage::Cut => { let at = rng.range(0, z.len() - 1); if at == 0 || !bounds.contains(&at) { must_fail = true; } else { return Ok(()); } f.truncate(at); }
        Damage::Flip => { let i = rng.below(f.len()); f[i] ^= 1 << rng.below(8); }
        Damage::Tail => { let b = rng.pick(&bounds); let i = b - 8 + rng.below(8); f[i] ^= 1 << rng.below(8); must_fail = true; }
        Damage::Garbage => { for _ in 0..rng.range(1, 30) { f.push(rng.pick(&[0x41u8, 0xff, 0x42])); } must_fail = true; }
    }
    let path = format!("{}/x.gz", dir);
    std::fs::write(&path, &f).unwrap();
    let desc = format!("{} lines, {} bytes, {} members, {:?}{}", want.len(), data.len(), nm, damage, if bad_utf8 { ", invalid UTF-8" } else { "" });
    let mut held: Vec<(Rc<String>, usize)> = Vec::new();
    let mut n = 0;
    let mut failed = false;
    let mut altered = false;
    let hold = rng.pick(&[0usize, 10, 50, 100]);
    let mut reader = GzBufReader::open(&path).map_err(|e| format!("{}: {}", desc, e))?;
    while let Some(l) = reader.next() {
        match l {
            Ok(l) => {
                // Flipped bits may decode to something else; then an error has to follow.
                if damage == Damage::Flip && (n >= want.len() || l.as_bytes() != &want[n][..]) { altered = true; n += 1; continue; }
                if n >= want.len() { return Err(format!("{}: more lines than there are: {:?}", desc, short(&l))); }
                if l.as_bytes() != &want[n][..] { return Err(format!("{}: line {} is {:?}, expected {:?}", desc, n + 1, short(&l), short(&String::from_utf8_lossy(&want[n])))); }
                if rng.chance(hold) { held.push((l, n)); }
                n += 1;
            }
            Err(_) => { failed = true; break; }
        }
    }
    drop(reader);
    for (l, i) in &held { if l.as_bytes() != &want[*i][..] { return Err(format!("{}: a line that was kept changed to {:?}", desc, short(l))); } }
    seen.count("lines", n as u64);
    seen.count("lines_kept", held.len() as u64);
    if failed { seen.count("reading_errors", 1); }
    if must_fail && !failed { return Err(format!("{}: {} lines were read without an error", desc, n)); }
    if altered && !failed { return Err(format!("{}: altered lines were read without an error", desc)); }
    if !failed && n != want.len() { return Err(format!("{}: only {} lines were read, without an error", desc, n)); }
    if failed && damage == Damage::None && !bad_utf8 { return Err(format!("{}: intact file cannot be read", desc)); }
    seen.count(&format!("damage:{:?}", damage), 1);
    if !want.is_empty() { seen.key((data.len(), want.len(), nm, format!("{:?}", damage), bad_utf8, hold)); }
    if seen.sample.is_empty() { seen.sample = desc; }
    Ok(())
}

fn short(s: &str) -> String { s.chars().take(60).collect() }
