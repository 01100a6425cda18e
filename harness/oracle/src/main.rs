//! Reference answers that do not involve any code of the repository: a line-by-line JSON server.
//!   {"op":"tok","texts":[..]}                 -> {"out":[[tokens]..]}
//!   {"op":"re","patterns":[..],"texts":[..]}  -> {"out":[[[start,end]..] per text] per pattern, or null if invalid}
//!   {"op":"hf","path":"tokenizer.json","texts":[..]} -> {"out":[[tokens]..]}
//!   {"op":"hfdecode","path":..,"seqs":[[tokens]..]}  -> {"out":[string..]}
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{self, BufRead, Write};
use tokenizers::Tokenizer;
use unicode_segmentation::UnicodeSegmentation;

fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
}

fn main() {
    let stdin = io::stdin();
    let mut out = io::stdout().lock();
    let mut toks: HashMap<String, Tokenizer> = HashMap::new();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        let req: Value = match serde_json::from_str(&line) { Ok(v) => v, Err(e) => { writeln!(out, "{}", json!({"error": e.to_string()})).unwrap(); out.flush().unwrap(); continue } };
        let op = req["op"].as_str().unwrap_or("");
        let res = match op {
            "tok" => {
                let o: Vec<Vec<String>> = strs(&req["texts"]).iter().map(|t| {
                    t.split_word_bounds().filter(|w| w.chars().any(|c| !c.is_whitespace())).map(|s| s.to_string()).collect()
                }).collect();
                json!(o)
            }
            "segs" => {
                let o: Vec<Vec<String>> = strs(&req["texts"]).iter().map(|t| t.split_word_bounds().map(|s| s.to_string()).collect()).collect();
                json!(o)
            }
            "re" => {
                let texts = strs(&req["texts"]);
                let o: Vec<Value> = strs(&req["patterns"]).iter().map(|p| match regex::Regex::new(p) {
                    Ok(re) => json!(texts.iter().map(|t| re.find_iter(t).map(|m| vec![m.start(), m.end()]).collect::<Vec<_>>()).collect::<Vec<_>>()),
                    Err(_) => Value::Null,
                }).collect();
                json!(o)
            }
            "hf" | "hfdecode" => {
                let path = req["path"].as_str().unwrap_or("").to_string();
                let tk = toks.entry(path.clone()).or_insert_with(|| Tokenizer::from_file(&path).expect("tokenizer"));
                if op == "hf" {
                    json!(strs(&req["texts"]).iter().map(|t| tk.encode(t.as_str(), false).expect("encode").get_tokens().to_vec()).collect::<Vec<_>>())
                } else {
                    json!(req["seqs"].as_array().unwrap().iter().map(|s| {
                        let ids: Vec<u32> = strs(s).iter().filter_map(|t| tk.token_to_id(t)).collect();
                        tk.decode(&ids, true).expect("decode")
                    }).collect::<Vec<_>>())
                }
            }
            _ => Value::Null,
        };
        writeln!(out, "{}", json!({"out": res})).unwrap();
        out.flush().unwrap();
    }
}
