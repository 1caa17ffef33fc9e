//! Several threads using the library at the same time.
//! Usage: conc SCRIPT TRACE [alone]
//!
//! A session has a program per thread: {"id", "rep", "ms", "th": [{"spin", "ev"}, ..]}.
//! All threads are released together, and nothing of the library has been used
//! before except for making the heap contexts they share. Every program runs
//! `rep` times, and until `ms` milliseconds have passed, from an empty store; a run that differs from the first one is
//! reported. With `alone`, the programs run one after another.
//!
//! The operation `peek` looks at a shared table: where it is, and a digest
//! of its bytes. `tick` are the times of call and return. At the end, the
//! number of objects of a table's size that were made is reported, and the
//! digests of the tables then.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use vharness::store::{Contexts, Store};
use vharness::*;

use libsecp256k1::curve::{ECMultContext, ECMultGenContext};

static MUL: AtomicUsize = AtomicUsize::new(0);
static GEN: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicUsize = AtomicUsize::new(1);

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == std::mem::size_of::<ECMultContext>() {
            MUL.fetch_add(1, Ordering::Relaxed);
        } else if l.size() == std::mem::size_of::<ECMultGenContext>() {
            GEN.fetch_add(1, Ordering::Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// What threads share and exchange has to be allowed to be shared.
#[allow(dead_code)]
fn shareable<T: Send + Sync>() {}
#[allow(dead_code)]
fn check_types() {
    use libsecp256k1::*;
    shareable::<ECMultContext>();
    shareable::<ECMultGenContext>();
    shareable::<PublicKey>();
    shareable::<SecretKey>();
    shareable::<Signature>();
    shareable::<RecoveryId>();
    shareable::<Message>();
    shareable::<SharedSecret<sha2::Sha256>>();
    shareable::<Error>();
}

fn digest_of<T>(t: &T) -> (usize, u64) {
    let p = t as *const T as *const u8;
    let mut h = 0xcbf29ce484222325u64;
    for i in 0..std::mem::size_of::<T>() {
        h = (h ^ unsafe { std::ptr::read_volatile(p.add(i)) } as u64).wrapping_mul(0x100000001b3);
    }
    (p as usize, h)
}

fn peek(a: &Args) -> Value {
    let c = CLOCK.fetch_add(1, Ordering::SeqCst);
    let (p, h) = if s(a, "which") == "mul" {
        let t: &ECMultContext = &libsecp256k1::ECMULT_CONTEXT;
        digest_of(t)
    } else {
        let t: &ECMultGenContext = &libsecp256k1::ECMULT_GEN_CONTEXT;
        digest_of(t)
    };
    let r = CLOCK.fetch_add(1, Ordering::SeqCst);
    json!({"r": "ok", "at": format!("{:x}", p), "h": format!("{:016x}", h), "tick": [c, r]})
}

fn program(boxed: &Arc<Contexts>, p: &Value, rep: usize, ms: u64, wait: &Barrier) -> Value {
    let evs: Vec<(String, Args)> = p["ev"]
        .as_array()
        .expect("ev")
        .iter()
        .map(|e| (e["op"].as_str().unwrap().to_string(), e["a"].as_object().unwrap().clone()))
        .collect();
    let mut first: Vec<Value> = vec![];
    wait.wait();
    for _ in 0..p["spin"].as_u64().unwrap() {
        std::hint::spin_loop();
    }
    let start = std::time::Instant::now();
    let mut r = 0;
    while r < rep || (start.elapsed().as_millis() as u64) < ms {
        let mut st = Store::new(boxed.clone());
        for (k, (op, a)) in evs.iter().enumerate() {
            if op == "peek" {
                if r == 0 {
                    first.push(peek(a));
                }
                continue;
            }
            let o = observe(&mut st, op, a);
            if r == 0 {
                first.push(o);
            } else if first[k] != o {
                first[k] = json!({"r": "unstable", "rep": r, "before": first[k].to_string(), "now": o.to_string()});
            }
        }
        r += 1;
    }
    Value::Array(
        evs.iter().zip(first).map(|((op, a), o)| json!({"op": op, "a": Value::Object(a.clone()), "o": o})).collect(),
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let alone = args.get(3).map_or(false, |x| x == "alone");
    std::panic::set_hook(Box::new(|_| {}));
    let boxed = Contexts::new();
    let mut out = std::fs::File::create(&args[2]).expect("trace");
    for line in std::io::BufReader::new(std::fs::File::open(&args[1]).expect("script")).lines() {
        let sess: Value = serde_json::from_str(&line.expect("line")).expect("json");
        let rep = sess["rep"].as_u64().unwrap() as usize;
        let ms = sess["ms"].as_u64().unwrap_or(0);
        let th = sess["th"].as_array().unwrap().clone();
        MUL.store(0, Ordering::SeqCst);
        GEN.store(0, Ordering::SeqCst);
        let outs: Vec<Value> = if alone {
            th.iter().map(|p| program(&boxed, p, 1, 0, &Barrier::new(1))).collect()
        } else {
            let wait = Arc::new(Barrier::new(th.len()));
            let hs: Vec<_> = th
                .into_iter()
                .map(|p| {
                    let (boxed, wait) = (boxed.clone(), wait.clone());
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn(move || program(&boxed, &p, rep, ms, &wait))
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        };
        let (m, g) = (MUL.load(Ordering::SeqCst), GEN.load(Ordering::SeqCst));
        let at_end = |which: &str| peek(json!({"which": which}).as_object().unwrap())["h"].clone();
        let end = json!({"mul": at_end("mul"), "gen": at_end("gen")});
        let o = json!({"id": sess["id"], "th": outs, "made": {"mul": m, "gen": g}, "end": end});
        serde_json::to_writer(&mut out, &o).expect("write");
        out.write_all(b"\n").expect("write");
    }
}
