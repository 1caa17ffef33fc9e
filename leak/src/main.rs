//! One call of the library between two marks, for valgrind to watch; and the
//! filter that reads what valgrind saw.
//!
//! Usage: vleak run < 192 octets: name of the operation (32, padded with zeros), then five numbers
//!        vleak watch < what `valgrind --tool=lackey --trace-mem=yes vleak run` wrote   [FILE]
use libsecp256k1::curve::*;
use libsecp256k1::*;
use std::hint::black_box;
use std::io::{BufRead, Read, Write};

#[inline(never)]
#[no_mangle]
pub extern "C" fn vleak_mark(x: u32) -> u32 {
    black_box(x) ^ 0x5aa5
}

fn scalar(b: &[u8; 32]) -> Scalar {
    let mut v = Scalar::default();
    let _ = v.set_b32(b);
    v
}

fn field(b: &[u8; 32]) -> Field {
    let mut v = Field::default();
    let _ = v.set_b32(b);
    v
}

fn point(x: &[u8; 32], y: &[u8; 32]) -> Affine {
    let mut p = Affine::default();
    p.set_xy(&field(x), &field(y));
    p
}

/// The call, its result in `out`. What comes before the mark is preparation.
fn perform(op: &str, a: &[[u8; 32]; 5], out: &mut [u8; 96]) {
    let begin = || {
        vleak_mark(1);
    };
    match op {
        "derive" => {
            begin();
            let k = SecretKey::parse(&a[0]).unwrap();
            let p = PublicKey::from_secret_key(&k);
            out[..65].copy_from_slice(&p.serialize());
        }
        "sign" => {
            let m = Message::parse(&a[3]);
            begin();
            let k = SecretKey::parse(&a[0]).unwrap();
            let (g, i) = sign(&m, &k);
            out[..64].copy_from_slice(&g.serialize());
            out[64] = i.serialize();
        }
        "sign_raw" => {
            let m = Message::parse(&a[3]);
            let d = scalar(&a[0]);
            let k = scalar(&a[1]);
            begin();
            let (r, s, i) = ECMULT_GEN_CONTEXT.sign_raw(&d, &m.0, &k).unwrap();
            out[..32].copy_from_slice(&r.b32());
            out[32..64].copy_from_slice(&s.b32());
            out[64] = i;
        }
        "ecdh" => {
            let mut full = [4u8; 65];
            full[1..33].copy_from_slice(&a[3]);
            full[33..].copy_from_slice(&a[4]);
            let p = PublicKey::parse(&full).unwrap();
            begin();
            let k = SecretKey::parse(&a[0]).unwrap();
            let v = SharedSecret::<sha2::Sha256>::new(&p, &k).unwrap();
            out[..32].copy_from_slice(v.as_ref());
        }
        "secret_key" => {
            let mut t = SecretKey::parse(&a[1]).unwrap();
            begin();
            let mut k = SecretKey::parse(&a[0]).unwrap();
            k.tweak_mul_assign(&t).unwrap();
            k = k.inv();
            out[..32].copy_from_slice(&k.serialize());
            k.tweak_add_assign(&t).unwrap();
            out[32..64].copy_from_slice(&k.serialize());
            k.clear();
            t.clear();
        }
        "scalar" => {
            let flag = a[2][31] & 1 == 1;
            begin();
            let x = scalar(&a[0]);
            let y = scalar(&a[1]);
            let mut r = &x * &y;
            r = &r + &x;
            r = -r;
            r = r.sqr();
            r += &y;
            r.cond_neg_assign(subtle::Choice::from(flag as u8));
            let mut z = x;
            z.shr_int(3);
            z.cadd_bit(7, flag);
            out[32..64].copy_from_slice(&z.b32());
            r = r.inv();
            out[0] = x.is_high() as u8 | (x.is_zero() as u8) << 1 | (x.is_even() as u8) << 2 | (y.is_one() as u8) << 3;
            out[1] = x.bits(4, 4) as u8;
            out[64..].copy_from_slice(&r.b32());
        }
        "product" => {
            let x = scalar(&a[0]);
            let y = scalar(&a[1]);
            begin();
            let mut r = &x * &y;
            out[..32].copy_from_slice(&r.b32());
            r = &r + &y;
            r = r.sqr();
            out[32..64].copy_from_slice(&r.b32());
            r = &x + &y;
            r = r.sqr();
            r *= &x.sqr();
            out[64..].copy_from_slice(&r.b32());
        }
        "field" => {
            let x = field(&a[0]);
            let y = field(&a[1]);
            begin();
            let mut r = x;
            r *= &y;
            let mut s = x.sqr();
            s += &y;
            s += &r.neg(1);
            s.mul_int(3);
            s.normalize_weak();
            out[0] = s.normalizes_to_zero() as u8;
            s.normalize();
            out[0] |= (s.is_odd() as u8) << 1 | (s.is_zero() as u8) << 2;
            let mut i = s.inv();
            i.normalize();
            let mut t = x;
            t += &y;
            out[1] = t.normalizes_to_zero() as u8;
            t.normalize();
            out[2] = (t == y) as u8;
            i += &t;
            i.normalize();
            let (mut q, _) = s.sqrt();
            q.normalize();
            out[32..64].copy_from_slice(&i.b32());
            out[64..].copy_from_slice(&q.b32());
        }
        "cmov" => {
            let f = a[2][31] & 1 == 1;
            let mut x = field(&a[0]);
            let y = field(&a[1]);
            let p: AffineStorage = AFFINE_G.into();
            let q: AffineStorage = AFFINE_G.neg().into();
            let mut t = p;
            let mut z: FieldStorage = x.into();
            let w: FieldStorage = y.into();
            begin();
            let f = black_box(f);
            x.cmov(&y, f);
            t.cmov(&q, f);
            z.cmov(&w, f);
            x.normalize();
            out[..32].copy_from_slice(&x.b32());
            let mut v: Affine = t.into();
            v.y.normalize();
            out[32..64].copy_from_slice(&v.y.b32());
            let mut u: Field = z.into();
            u.normalize();
            out[64..].copy_from_slice(&u.b32());
        }
        "group" => {
            let z = field(&a[2]);
            let p = point(&a[0], &a[1]);
            begin();
            let mut j = Jacobian::from_ge(&p);
            j.rescale(&z);
            let mut d = Jacobian::default();
            d.double_nonzero_in_place(&j, None);
            let t = d.add_ge(&p);
            let mut v = Affine::default();
            v.set_gej(&t.neg());
            v.x.normalize();
            v.y.normalize();
            out[..32].copy_from_slice(&v.x.b32());
            out[32..64].copy_from_slice(&v.y.b32());
        }
        "add" => {
            let z = field(&a[2]);
            let p = point(&a[0], &a[1]);
            let q = point(&a[3], &a[4]);
            let mut j = Jacobian::from_ge(&p);
            j.rescale(&z);
            if z.is_zero() {
                j = Jacobian::default();
                j.set_infinity();
            }
            begin();
            let t = j.add_ge(&q);
            let mut v = Affine::default();
            out[95] = t.infinity as u8;
            v.set_gej(&t);
            v.x.normalize();
            v.y.normalize();
            out[..32].copy_from_slice(&v.x.b32());
            out[32..64].copy_from_slice(&v.y.b32());
        }
        "multiply" => {
            let p = point(&a[3], &a[4]);
            begin();
            let k = scalar(&a[0]);
            let mut r = Jacobian::default();
            ECMULT_CONTEXT.ecmult_const(&mut r, &p, &k);
            let mut v = Affine::default();
            v.set_gej(&r);
            v.x.normalize();
            out[..32].copy_from_slice(&v.x.b32());
        }
        // For the check itself: these must be told apart.
        "control_branch" => {
            begin();
            if black_box(&a[0])[31] & 1 == 1 {
                out[0] = black_box(7);
                out[1] = black_box(9);
            }
        }
        "control_lookup" => {
            let table = [3u32; 256];
            begin();
            out[0] = black_box(&table)[black_box(&a[0])[31] as usize] as u8;
        }
        _ => panic!("no such operation"),
    }
}

fn run() {
    let mut b = [0u8; 192];
    std::io::stdin().read_exact(&mut b).unwrap();
    let op = std::str::from_utf8(&b[..32]).unwrap().trim_end_matches('\0').to_string();
    let mut a = [[0u8; 32]; 5];
    for (i, x) in a.iter_mut().enumerate() {
        x.copy_from_slice(&b[32 * i + 32..32 * i + 64]);
    }
    let mut out = [0u8; 96];
    perform(&op, black_box(&a), &mut out);
    vleak_mark(2);
    let mut text = format!("{:x} ", vleak_mark as *const () as usize);
    for x in out {
        text.push_str(&format!("{:02x}", x));
    }
    println!("{}", text);
}

/// 64-bit FNV-1a.
fn mix(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

/// Lines between the first and the second call of the mark: the program
/// wrote the address of the mark and its result to FILE.
fn watch(file: &str, dump: Option<&String>) {
    let lines: Vec<Vec<u8>> = std::io::BufReader::new(std::io::stdin()).split(b'\n').map(|l| l.unwrap()).collect();
    let said = std::fs::read_to_string(file).unwrap();
    let mut parts = said.split_whitespace();
    let mark = u64::from_str_radix(parts.next().expect("mark"), 16).unwrap();
    let result = parts.next().expect("result");
    let mut marks = 0;
    let (mut ni, mut nd) = (0u64, 0u64);
    let (mut hi, mut hd) = (0xcbf29ce484222325u64, 0xcbf29ce484222325u64);
    let mut out = dump.map(|d| std::io::BufWriter::new(std::fs::File::create(d).unwrap()));
    for l in &lines {
        let instr = l.starts_with(b"I  ");
        if !instr && !l.starts_with(b" L ") && !l.starts_with(b" S ") && !l.starts_with(b" M ") {
            continue;
        }
        if instr {
            let t = std::str::from_utf8(&l[3..]).unwrap();
            if u64::from_str_radix(t.split(',').next().unwrap(), 16) == Ok(mark) {
                marks += 1;
            }
        }
        if marks == 1 {
            if instr {
                ni += 1;
                hi = mix(hi, &l[3..]);
            } else {
                nd += 1;
                hd = mix(hd, &l[1..]);
            }
            if let Some(o) = out.as_mut() {
                o.write_all(l).unwrap();
                o.write_all(b"\n").unwrap();
            }
        }
    }
    if marks < 2 {
        eprintln!("marks not seen");
        std::process::exit(3);
    }
    println!("{{\"r\": \"ok\", \"v\": \"{}\", \"steps\": {}, \"path\": \"{:016x}\", \"touches\": {}, \"places\": \"{:016x}\"}}", result, ni, hi, nd, hd);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "run" => run(),
        _ => watch(&args[2], args.get(3)),
    }
}
