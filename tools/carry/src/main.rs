//! Finds scalars whose product or square makes every carry of schoolbook
//! multiplication on 32-bit words (three accumulator words, then two folds of
//! the high part by 2^256 - n) happen at every place where it can happen.
//! Prints pairs "a b" (hex; a alone for a square). Inputs only: what the
//! results must be is decided elsewhere. The output is gen/carries.txt.
//!
//! Usage: carry SECONDS
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

const N: [u32; 8] =
    [0xD0364141, 0xBFD25E8C, 0xAF48A03B, 0xBAAEDCE6, 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF];
const NC: [u32; 5] = [!N[0] + 1, !N[1], !N[2], !N[3], 1];

#[derive(Default)]
struct Acc {
    c: [u32; 3],
    site: u32,
    hits: Vec<u32>,
}

impl Acc {
    fn ev(&mut self, k: u32, yes: bool) {
        if yes {
            self.hits.push(self.site * 16 + k);
        }
    }
    fn muladd(&mut self, a: u32, b: u32) {
        self.site += 1;
        let t = a as u64 * b as u64;
        let (tl, mut th) = (t as u32, (t >> 32) as u32);
        let (x, o) = self.c[0].overflowing_add(tl);
        self.c[0] = x;
        self.ev(0, o);
        self.ev(1, o && th == 0xfffffffe);
        th += o as u32;
        let (x, p) = self.c[1].overflowing_add(th);
        self.c[1] = x;
        self.ev(2, p);
        self.ev(3, p && o && x == 0);
        self.c[2] += p as u32;
    }
    fn muladd2(&mut self, a: u32, b: u32) {
        self.site += 1;
        let t = a as u64 * b as u64;
        let (tl, th) = (t as u32, (t >> 32) as u32);
        let (mut th2, o) = th.overflowing_add(th);
        self.ev(0, o);
        self.c[2] += o as u32;
        let (tl2, o2) = tl.overflowing_add(tl);
        self.ev(1, o2);
        th2 = th2 + o2 as u32;
        let (x, p) = self.c[0].overflowing_add(tl2);
        self.c[0] = x;
        self.ev(2, p);
        let (y, w) = th2.overflowing_add(p as u32);
        self.ev(3, w);
        self.c[2] += w as u32;
        let (x, q) = self.c[1].overflowing_add(y);
        self.c[1] = x;
        self.ev(4, q);
        self.ev(5, q && x == 0);
        self.c[2] += q as u32;
        self.ev(6, o && w);
        self.ev(7, o && q);
    }
    fn sumadd(&mut self, a: u32) {
        self.site += 1;
        let (x, o) = self.c[0].overflowing_add(a);
        self.c[0] = x;
        self.ev(0, o);
        let (y, p) = self.c[1].overflowing_add(o as u32);
        self.c[1] = y;
        self.ev(1, p);
        self.c[2] += p as u32;
    }
    fn extract(&mut self) -> u32 {
        self.site += 1;
        let two = self.c[2];
        self.ev(0, two > 0);
        self.ev(1, two > 1);
        self.ev(2, two > 2);
        self.ev(3, self.c[1] > 0);
        let r = self.c[0];
        self.c = [self.c[1], two, 0];
        r
    }
}

fn ge_n(r: &[u32; 8]) -> bool {
    for i in (0..8).rev() {
        if r[i] != N[i] {
            return r[i] > N[i];
        }
    }
    true
}

fn trace(acc: &mut Acc, a: &[u32; 8], b: Option<&[u32; 8]>) {
    acc.c = [0; 3];
    acc.hits.clear();
    acc.site = if b.is_some() { 0 } else { 1000 };
    let mut l = [0u32; 16];
    for k in 0..15usize {
        let lo = k.saturating_sub(7);
        let hi = k.min(7);
        match b {
            Some(b) => {
                for i in lo..=hi {
                    acc.muladd(a[i], b[k - i]);
                }
            }
            None => {
                for i in lo..=hi {
                    let j = k - i;
                    if i < j {
                        acc.muladd2(a[i], a[j]);
                    } else if i == j {
                        acc.muladd(a[i], a[i]);
                    }
                }
            }
        }
        l[k] = acc.extract();
    }
    l[15] = acc.c[0];
    acc.site = 2000;
    // fold the high eight words
    let n = &l[8..16];
    let mut m = [0u32; 13];
    acc.c = [l[0], 0, 0];
    for k in 0..12usize {
        if k > 0 && k < 8 {
            acc.sumadd(l[k]);
        }
        for i in (0..8usize).rev() {
            if k >= i && k - i < 4 {
                acc.muladd(n[i], NC[k - i]);
            }
        }
        if k >= 4 {
            acc.sumadd(n[k - 4]);
        }
        m[k] = acc.extract();
    }
    m[12] = acc.c[0];
    acc.site += 1;
    acc.ev(0, m[12] > 0);
    let mut p = [0u32; 9];
    acc.c = [m[0], 0, 0];
    for k in 0..8usize {
        if k > 0 {
            acc.sumadd(m[k]);
        }
        for i in (0..5usize).rev() {
            if k >= i && k - i < 4 {
                acc.muladd(m[8 + i], NC[k - i]);
            }
        }
        if k >= 4 {
            acc.sumadd(m[8 + k - 4]);
        }
        p[k] = acc.extract();
    }
    p[8] = acc.c[0] + m[12];
    acc.site += 1;
    let p8 = p[8];
    acc.ev(0, p8 == 0);
    acc.ev(1, p8 == 1);
    acc.ev(2, p8 == 2);
    let mut r = [0u32; 8];
    let mut c = 0u64;
    for i in 0..8 {
        acc.site += 1;
        c += p[i] as u64 + if i < 5 { NC[i] as u64 * p8 as u64 } else { 0 };
        r[i] = c as u32;
        c >>= 32;
        acc.ev(0, c > 0);
        acc.ev(1, c > 1);
        acc.ev(2, i >= 5 && c > 0 && p8 > 0);
    }
    acc.site += 1;
    let o = ge_n(&r);
    acc.ev(0, o);
    acc.ev(1, c > 0);
    acc.ev(2, r == N);
    // why it is at least n, or not
    for i in 0..8 {
        acc.ev(3 + i as u32, c == 0 && (i + 1..8).all(|j| r[j] == N[j]) && r[i] != N[i] && o);
    }
    acc.site += 1;
    for i in 0..8 {
        acc.ev(i as u32, c == 0 && (i + 1..8).all(|j| r[j] == N[j]) && r[i] != N[i] && !o);
    }
    if o || c > 0 {
        let mut t = 0u64;
        for i in 0..8 {
            acc.site += 1;
            t += r[i] as u64 + if i < 5 { NC[i] as u64 } else { 0 };
            t >>= 32;
            acc.ev(0, t > 0);
        }
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn word(&mut self) -> u32 {
        match self.next() >> 60 {
            0 | 1 => 0,
            2 | 3 | 4 => 0xffffffff,
            5 => 0xfffffffe,
            6 => 1,
            7 => 0x80000000,
            8 => 0x7fffffff,
            9 => N[(self.next() % 4) as usize],
            10 => NC[(self.next() % 4) as usize],
            _ => (self.next() >> 16) as u32,
        }
    }
    fn scalar(&mut self) -> [u32; 8] {
        loop {
            let mut a = [0u32; 8];
            match self.next() >> 62 {
                0 => {
                    for x in a.iter_mut() {
                        *x = (self.next() >> 16) as u32;
                    }
                }
                _ => {
                    for x in a.iter_mut() {
                        *x = self.word();
                    }
                }
            }
            if self.next() & 3 == 0 {
                // two words whose product lies just below 2^63 or 2^64
                let i = (self.next() % 8) as usize;
                let j = (self.next() % 8) as usize;
                if i != j {
                    a[i] |= 0x80000000;
                    a[j] = (0x7fffffffffffffffu64 / a[i] as u64) as u32;
                }
            }
            if !ge_n(&a) {
                return a;
            }
        }
    }
}

/// t / a for a 512-bit t, when the quotient is below n.
fn quotient(t: &[u32; 16], a: &[u32; 8]) -> Option<[u32; 8]> {
    let (mut r, mut q) = ([0u32; 9], [0u32; 16]);
    for bit in (0..512).rev() {
        for i in (1..9).rev() {
            r[i] = r[i] << 1 | r[i - 1] >> 31;
        }
        r[0] = r[0] << 1 | (t[bit / 32] >> (bit % 32)) & 1;
        let ge = r[8] > 0 || (0..8).rev().find(|&i| r[i] != a[i]).map_or(true, |i| r[i] > a[i]);
        if ge {
            let mut b = 0i64;
            for i in 0..9 {
                b += r[i] as i64 - if i < 8 { a[i] as i64 } else { 0 };
                r[i] = b as u32;
                b >>= 32;
            }
            q[bit / 32] |= 1 << (bit % 32);
        }
    }
    if q[8..].iter().any(|x| *x != 0) {
        return None;
    }
    let q: [u32; 8] = q[..8].try_into().unwrap();
    if ge_n(&q) { None } else { Some(q) }
}

fn hex(a: &[u32; 8]) -> String {
    (0..8).rev().map(|i| format!("{:08x}", a[i])).collect()
}

type Found = HashMap<u32, ([u32; 8], Option<[u32; 8]>)>;

fn main() {
    let secs: u64 = std::env::args().nth(1).map_or(10, |s| s.parse().unwrap());
    let found: Arc<Mutex<Found>> = Arc::default();
    let start = std::time::Instant::now();
    let hs: Vec<_> = (0..6u64)
        .map(|t| {
            let found = found.clone();
            std::thread::spawn(move || {
                let mut rng = Rng(0x9e3779b97f4a7c15u64.wrapping_mul(t + 1));
                let mut mine: std::collections::HashSet<u32> = Default::default();
                let mut acc = Acc::default();
                let mut it = 0u64;
                loop {
                    it += 1;
                    if it & 0xffff == 0 && start.elapsed().as_secs() > secs {
                        break;
                    }
                    let mut a = rng.scalar();
                    let mut b = if rng.next() & 1 == 0 { Some(rng.scalar()) } else { None };
                    if it % 5 == 0 {
                        // choose (the high words of) the product
                        let mut t = [0u32; 16];
                        for i in 0..16 {
                            t[i] = match rng.next() >> 61 {
                                0 => (rng.next() >> 16) as u32,
                                1 => rng.word(),
                                2 => 0xffffffff - ((rng.next() >> 50) as u32),
                                3 => 0xffffffffu32.wrapping_sub(NC[(rng.next() % 4) as usize]),
                                _ => 0xffffffff,
                            };
                        }
                        t[15] |= 0xffff0000;
                        if t[12] > 0xfffffffd && t[13] == 0xffffffff {
                            t[12] = 0xfffffffd - (rng.next() >> 63) as u32;
                        }
                        a = N;
                        a[0] -= 1 + (rng.next() >> 40) as u32;
                        a[4] -= (rng.next() >> 33) as u32 % 3;
                        match quotient(&t, &a) {
                            Some(q) => b = Some(q),
                            None => continue,
                        }
                    } else if it % 3 == 0 {
                        // vary an input that is already interesting
                        if it % 4096 < 8 || true {
                            let f = found.lock().unwrap();
                            if !f.is_empty() && it % 16 == 0 {
                                let k = (rng.next() as usize) % f.len();
                                let (x, y) = f.values().nth(k).unwrap();
                                a = *x;
                                b = *y;
                                drop(f);
                                let w = rng.word();
                                let i = (rng.next() % 8) as usize;
                                match b.as_mut() {
                                    Some(b) if rng.next() & 1 == 0 => b[i] = w,
                                    _ => a[i] = w,
                                }
                                if ge_n(&a) || b.map_or(false, |b| ge_n(&b)) {
                                    continue;
                                }
                            }
                        }
                    }
                    trace(&mut acc, &a, b.as_ref());
                    let mut new = false;
                    for h in &acc.hits {
                        if !mine.contains(h) {
                            new = true;
                            mine.insert(*h);
                        }
                    }
                    if new {
                        let mut f = found.lock().unwrap();
                        for h in &acc.hits {
                            f.entry(*h).or_insert((a, b));
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let f = found.lock().unwrap();
    let mut out: Vec<String> =
        f.values().map(|(a, b)| b.map_or(hex(a), |b| format!("{} {}", hex(a), hex(&b)))).collect();
    out.sort();
    out.dedup();
    eprintln!("{} carries, {} inputs", f.len(), out.len());
    let mut per: HashMap<(u32, u32), u32> = HashMap::new();
    for k in f.keys() {
        *per.entry((k / 16000, k % 16)).or_default() += 1;
    }
    let mut per: Vec<_> = per.into_iter().collect();
    per.sort();
    eprintln!("{:?}", per);
    for l in out {
        println!("{}", l);
    }
}
