//! Tokens of random strings, against the segmentation crate, against the text itself, and, for plain
//! ASCII, against the word-boundary rules written down again.
use crate::{Rng, Seen, Verdict};
use unicode_segmentation::UnicodeSegmentation;
use wimbd::tokens::tokenize;

const BITS: &[&str] = &["a", "b", "Z", "word", "don't", "e.g", "3.14", "1,000", "_", "a_b", "x1", "é", "e\u{301}", "ß", "İ", "ς", "ПРИ", "ж", "東京", "ひら", "カタ", "한국", "ไทย", "हि", "👍", "👨‍👩‍👧", "🇩🇪", "🇩🇪🇫", "\u{200d}", "\u{200b}", "\u{ad}", "\u{feff}", "\u{2060}",
    "שלום", "ש\"ל", "'", "\"", ".", ",", ":", ";", "!", "-", "–", "…", "(", ")", "@", "#", "http://x.y/z?q=1", "a@b.co", "\\", "/", "\u{308}", "\u{20dd}", "𝕏", "\u{1F3FB}", "①", "½", "²", "\u{7f}", "\u{0}", "\u{1}", "\u{fffd}", "\u{10ffff}", "\u{e000}", "ﬁ", "\u{660}", "৳"];
const SPACES: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "\u{1c}", "\u{180e}", " \u{308}", " \u{200d}"];
const ASCII: &[u8] = b"aabzZ019_ .,'\":;!-(@/ \t\n\r ";

fn random_char(rng: &mut Rng) -> char {
    loop {
        let r = match rng.below(4) { 0 => 0x80, 1 => 0x3000, 2 => 0x10000, _ => 0x110000 };
        if let Some(c) = char::from_u32(rng.below(r) as u32) { return c; }
    }
}

pub fn scenario(rng: &mut Rng, seen: &mut Seen, small: bool) -> Verdict {
    let style = rng.below(4);
    let n = if small { rng.range(0, 5) } else if rng.below(2000) == 0 { 30000 } else { rng.pick(&[0usize, 1, 2, 5, 20, 100]) };
    let mut s = String::new();
    for _ in 0..n {
        match style {
            0 => s.push(rng.pick(ASCII) as char),
            1 => s.push(random_char(rng)),
            2 => { s.push_str(rng.pick(BITS)); if rng.chance(50) { s.push_str(rng.pick(SPACES)); } }
            _ => s.push_str(if rng.chance(50) { rng.pick(SPACES) } else { rng.pick(BITS) }),
        }
    }
    let got: Vec<&str> = tokenize(&s).collect();
    let want: Vec<&str> = s.split_word_bounds().filter(|w| !w.trim().is_empty()).collect();
    seen.count("tokens", want.len() as u64);
    seen.count("blank_segments", (s.split_word_bounds().count() - want.len()) as u64);
    if got != want { return Err(format!("{:?}: tokens {:?}, expected {:?}", s, got, want)); }
    let a: String = got.concat().chars().filter(|c| !c.is_whitespace()).collect();
    let b: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    if a != b { return Err(format!("{:?}: the tokens hold {:?}", s, a)); }
    // They are parts of the text, in order and without overlap.
    let mut pos = 0;
    for t in &got {
        let at = t.as_ptr() as usize - s.as_ptr() as usize;
        if at < pos || at + t.len() > s.len() { return Err(format!("{:?}: token {:?} out of order", s, t)); }
        pos = at + t.len();
    }
    if s.is_ascii() {
        let w = ascii_words(&s);
        if got != w { return Err(format!("{:?}: tokens {:?}, by the rules {:?}", s, got, w)); }
        seen.count("checked_by_own_rules", 1);
    }
    if !want.is_empty() { seen.key(&s); }
    if seen.sample.is_empty() && got.len() > 2 { seen.sample = format!("{:?} -> {:?}", s, got).chars().take(200).collect(); }
    Ok(())
}

/// The word-boundary rules of UAX #29 restricted to ASCII (WB3, 3a-d, 5-13b).
fn ascii_words(s: &str) -> Vec<&str> {
    let c = s.as_bytes();
    let letter = |i: usize| c[i].is_ascii_alphabetic();
    let num = |i: usize| c[i].is_ascii_digit();
    let ext = |i: usize| c[i] == b'_';
    let nl = |i: usize| matches!(c[i], b'\r' | b'\n' | 0x0b | 0x0c);
    let mid_letter = |i: usize| c[i] == b':' || c[i] == b'.' || c[i] == b'\'';
    let mid_num = |i: usize| matches!(c[i], b',' | b';' | b'.' | b'\'');
    let n = c.len();
    let joined = |i: usize| -> bool {
        // no boundary between i-1 and i?
        let (p, q) = (i - 1, i);
        if c[p] == b'\r' && c[q] == b'\n' { return true; }
        if nl(p) || nl(q) { return false; }
        if c[p] == b' ' && c[q] == b' ' { return true; }
        if letter(p) && letter(q) || num(p) && num(q) || letter(p) && num(q) || num(p) && letter(q) { return true; }
        if letter(p) && mid_letter(q) && i + 1 < n && letter(i + 1) { return true; }
        if mid_letter(p) && letter(q) && p > 0 && letter(p - 1) { return true; }
        if mid_num(p) && num(q) && p > 0 && num(p - 1) { return true; }
        if num(p) && mid_num(q) && i + 1 < n && num(i + 1) { return true; }
        if (letter(p) || num(p) || ext(p)) && ext(q) || ext(p) && (letter(q) || num(q)) { return true; }
        false
    };
    let (mut out, mut start) = (Vec::new(), 0);
    for i in 1..=n {
        if i == n || !joined(i) {
            let w = &s[start..i];
            if w.chars().any(|ch| !ch.is_whitespace()) { out.push(w); }
            start = i;
        }
    }
    out
}
