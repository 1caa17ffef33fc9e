//! Shared parts of the executors: reading scripts, writing traces.
//!
//! A script is a text file with one session per line:
//!     {"id": .., "ev": [{"op": .., "a": {..}}, ..]}
//! The executor performs the calls in order against the library and writes
//! the same sessions with the observation "o" added to every event.

pub mod store;

use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

pub fn arr<const K: usize>(b: &[u8]) -> [u8; K] {
    let mut r = [0u8; K];
    r.copy_from_slice(b);
    r
}

pub type Args = Map<String, Value>;

fn get<'a>(a: &'a Args, k: &str) -> &'a Value {
    a.get(k).unwrap_or_else(|| panic!("script: no argument {}", k))
}
pub fn s<'a>(a: &'a Args, k: &str) -> &'a str {
    get(a, k).as_str().unwrap_or_else(|| panic!("script: string {}", k))
}
pub fn h(a: &Args, k: &str) -> Vec<u8> {
    unhex(s(a, k))
}
pub fn h32(a: &Args, k: &str) -> [u8; 32] {
    arr(&h(a, k))
}
pub fn n(a: &Args, k: &str) -> usize {
    get(a, k).as_u64().unwrap_or_else(|| panic!("script: number {}", k)) as usize
}
pub fn b(a: &Args, k: &str) -> bool {
    get(a, k).as_bool().unwrap_or_else(|| panic!("script: bool {}", k))
}
pub fn has(a: &Args, k: &str) -> bool {
    a.contains_key(k)
}

pub fn ok_v(v: &[u8]) -> Value {
    json!({"r": "ok", "v": hex(v)})
}
pub fn ok_b(v: bool) -> Value {
    json!({"r": "ok", "b": v})
}
pub fn ok_n(v: i64) -> Value {
    json!({"r": "ok", "n": v})
}
pub fn err(e: &str) -> Value {
    json!({"r": e})
}

pub trait Executor {
    fn reset(&mut self);
    fn call(&mut self, op: &str, a: &Args) -> Value;
}

/// Performs one call; a panic is an observation, too.
pub fn observe<E: Executor>(e: &mut E, op: &str, a: &Args) -> Value {
    match catch_unwind(AssertUnwindSafe(|| e.call(op, a))) {
        Ok(v) => v,
        Err(p) => {
            let m = if let Some(m) = p.downcast_ref::<String>() {
                m.clone()
            } else if let Some(m) = p.downcast_ref::<&str>() {
                m.to_string()
            } else {
                String::new()
            };
            // A mistake in the script is not an observation.
            if m.starts_with("script:") {
                eprintln!("bad event {} {:?}: {}", op, a, m);
                std::process::exit(3);
            }
            json!({"r": "panic"})
        }
    }
}

/// Usage: BIN SCRIPT TRACE
pub fn main_loop<E: Executor>(mut e: E) {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("script"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("trace"));
    std::panic::set_hook(Box::new(|_| {}));
    for line in input.lines() {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let mut sess: Value = serde_json::from_str(&line).expect("json");
        e.reset();
        let evs = sess["ev"].as_array_mut().expect("ev");
        for ev in evs.iter_mut() {
            let op = ev["op"].as_str().expect("op").to_string();
            let a = ev["a"].as_object().expect("a").clone();
            let o = observe(&mut e, &op, &a);
            ev.as_object_mut().unwrap().insert("o".to_string(), o);
        }
        // One line per session, flushed, so that a crash shows where it was.
        serde_json::to_writer(&mut out, &sess).expect("write");
        out.write_all(b"\n").expect("write");
        out.flush().expect("flush");
    }
}
