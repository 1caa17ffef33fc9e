//! Executes scripts over the arithmetic layer of the library.
#![allow(unused_imports, dead_code)]

use libsecp256k1::curve::{
    Affine, AffineStorage, ECMultContext, ECMultGenContext, Field, FieldStorage, Jacobian, Scalar, AFFINE_G,
};
use libsecp256k1::util::{
    globalz_set_table_gej, odd_multiples_table, set_table_gej_var, AFFINE_INFINITY, JACOBIAN_INFINITY,
};
use serde_json::{json, Value};
use std::cmp::Ordering;
use subtle::Choice;
use vharness::*;

const K: usize = 12;

struct Regs {
    f: [Option<Field>; K],
    a: [Option<Affine>; K],
    j: [Option<Jacobian>; K],
    mul: Box<ECMultContext>,
    gen: Box<ECMultGenContext>,
}

fn words(b: &[u8; 32]) -> [u32; 8] {
    let mut w = [0u32; 8];
    for i in 0..8 {
        w[i] = u32::from_be_bytes(arr(&b[28 - 4 * i..32 - 4 * i]));
    }
    w
}
fn octets(w: &[u32; 8]) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..8 {
        b[28 - 4 * i..32 - 4 * i].copy_from_slice(&w[i].to_be_bytes());
    }
    b
}
fn sc(a: &Args, k: &str) -> Scalar {
    Scalar(words(&h32(a, k)))
}
fn hs(v: &Scalar) -> String {
    hex(&octets(&v.0))
}

fn raw(l: &[u32; 10]) -> Field {
    Field::new_raw(l[9], l[8], l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0])
}
const PL: [u32; 10] = [
    0x3fffc2f, 0x3ffffbf, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3fffff,
];

/// The 256-bit integer b in one of several representations.
fn fe(b: &[u8; 32], rep: usize) -> Field {
    let mut l = [0u32; 10];
    for i in 0..256 {
        let bit = (b[31 - i / 8] >> (i % 8)) & 1;
        l[i / 26] |= (bit as u32) << (i % 26);
    }
    let f = raw(&l);
    match rep {
        0 => {
            let mut g = f;
            g.normalize();
            g
        }
        1 => f,
        2 => f.neg(1).neg(2),
        3 => {
            let mut g = f;
            g += Field::from_int(5);
            g += Field::from_int(5).neg(1);
            g
        }
        4 => {
            for i in 0..10 {
                l[i] += PL[i];
            }
            raw(&l)
        }
        _ => {
            // magnitude 8: the value plus 14p, limb by limb
            let mut g = raw(&PL);
            g.mul_int(7);
            g += f;
            g
        }
    }
}

/// The canonical value, obtained from a copy.
fn val(f: &Field) -> [u8; 32] {
    let mut g = *f;
    g.normalize();
    g.b32()
}
fn hv(f: &Field) -> String {
    hex(&val(f))
}

fn fobs(f: &Field, same: bool) -> Value {
    let v = val(f);
    let mut a = *f;
    a.normalize_var();
    let mut b = *f;
    b.normalize_weak();
    let bz = b.normalizes_to_zero() as u8 + b.normalizes_to_zero_var() as u8;
    b.normalize();
    let mut c = *f;
    c.normalize_weak();
    c.normalize_var();
    let z = f.normalizes_to_zero();
    let zv = f.normalizes_to_zero_var();
    let same = same
        && a.b32() == v
        && b.b32() == v
        && c.b32() == v
        && z == zv
        && bz == 2 * (z as u8)
        && a.is_zero() == z
        && a.is_odd() == (v[31] & 1 == 1);
    json!({"r": "ok", "v": hex(&v), "zero": z, "same": same})
}

fn aobs(p: &Affine) -> Value {
    if p.is_infinity() != p.infinity {
        return err("is_infinity");
    }
    if p.infinity {
        json!({"r": "ok", "inf": true, "v": ""})
    } else {
        json!({"r": "ok", "inf": false, "v": format!("{}{}", hv(&p.x), hv(&p.y))})
    }
}

fn jobs(p: &Jacobian) -> Value {
    if p.is_infinity() != p.infinity {
        return err("is_infinity");
    }
    if p.infinity {
        json!({"r": "ok", "inf": true, "x": "", "y": "", "z": ""})
    } else {
        json!({"r": "ok", "inf": false, "x": hv(&p.x), "y": hv(&p.y), "z": hv(&p.z)})
    }
}

/// What a call may find where it is to put its result: anything at all.
fn jplaces(p: &Jacobian) -> Vec<Jacobian> {
    let mut stale = *p;
    stale.infinity = !stale.infinity;
    let mut heavy = Jacobian::from_ge(&AFFINE_G);
    heavy.x = fe(&[0xff; 32], 5);
    heavy.y = fe(&[0x77; 32], 5);
    heavy.z = fe(&[0xff; 32], 2);
    vec![Jacobian::from_ge(&AFFINE_G), JACOBIAN_INFINITY, Jacobian::default(), *p, stale, heavy]
}
fn aplaces() -> Vec<Affine> {
    let mut heavy = Affine::new(fe(&[0xff; 32], 5), fe(&[0x77; 32], 5));
    heavy.infinity = true;
    vec![AFFINE_G, AFFINE_INFINITY, Affine::default(), heavy]
}
fn fplaces() -> Vec<Field> {
    vec![Field::default(), fe(&[0xff; 32], 3), fe(&[0xff; 32], 5), fe(&[0; 32], 2), fe(&[0x12; 32], 0)]
}
fn some_place(k: &Scalar) -> Jacobian {
    let v = jplaces(&Jacobian::from_ge(&AFFINE_G));
    v[(k.0[0] ^ k.0[3]) as usize % v.len()]
}
/// Does the call leave this point whatever was there before?
fn lands(p: &Jacobian, want: &Jacobian, f: impl Fn(&mut Jacobian)) -> bool {
    jplaces(p).iter().all(|t| {
        let mut t = *t;
        f(&mut t);
        jobs(&t) == jobs(want)
    })
}
fn alands(want: &Affine, f: impl Fn(&mut Affine)) -> bool {
    aplaces().iter().all(|t| {
        let mut t = *t;
        f(&mut t);
        aobs(&t) == aobs(want)
    })
}
fn flands(want: &Field, f: impl Fn(&mut Field)) -> bool {
    fplaces().iter().all(|t| {
        let mut t = *t;
        f(&mut t);
        feq(&t, want)
    })
}
fn slands(want: &Scalar, f: impl Fn(&mut Scalar)) -> bool {
    [Scalar([0; 8]), Scalar([0x5a5a5a5a; 8]), Scalar([u32::MAX; 8])].iter().all(|t| {
        let mut t = *t;
        f(&mut t);
        t == *want
    })
}

fn storage(p: &AffineStorage) -> String {
    format!("{}{}", hex(&octets(&p.x.0)), hex(&octets(&p.y.0)))
}

macro_rules! need {
    ($e:expr) => {
        match $e {
            Some(v) => v,
            None => return err("noarg"),
        }
    };
}

impl Regs {
    fn new() -> Regs {
        Regs {
            f: [None; K],
            a: [None; K],
            j: [None; K],
            mul: ECMultContext::new_boxed(),
            gen: ECMultGenContext::new_boxed(),
        }
    }
    fn putf(&mut self, a: &Args, f: Field, same: bool) -> Value {
        self.f[n(a, "d")] = Some(f);
        fobs(&f, same)
    }
    fn puta(&mut self, a: &Args, p: Affine) -> Value {
        self.a[n(a, "d")] = Some(p);
        aobs(&p)
    }
    fn putj(&mut self, a: &Args, p: Jacobian) -> Value {
        self.j[n(a, "d")] = Some(p);
        jobs(&p)
    }
    /// With the ratio of the z coordinates, where the call reports one.
    fn putjz(&mut self, a: &Args, p: Jacobian, az: &Field, rz: Option<Field>) -> Value {
        let mut o = self.putj(a, p);
        if let Some(rz) = rz {
            o["az"] = json!(hv(az));
            o["rz"] = json!(hv(&rz));
        }
        o
    }
    fn with_mul<R>(&self, a: &Args, f: impl FnOnce(&ECMultContext) -> R) -> R {
        #[cfg(feature = "static-context")]
        if s(a, "ctx") == "static" {
            return f(&libsecp256k1::ECMULT_CONTEXT);
        }
        let _ = a;
        f(&self.mul)
    }
    fn with_gen<R>(&self, a: &Args, f: impl FnOnce(&ECMultGenContext) -> R) -> R {
        #[cfg(feature = "static-context")]
        if s(a, "ctx") == "static" {
            return f(&libsecp256k1::ECMULT_GEN_CONTEXT);
        }
        let _ = a;
        f(&self.gen)
    }
}

fn feq(a: &Field, b: &Field) -> bool {
    val(a) == val(b)
}

impl Executor for Regs {
    fn reset(&mut self) {
        self.f = [None; K];
        self.a = [None; K];
        self.j = [None; K];
    }

    fn call(&mut self, op: &str, a: &Args) -> Value {
        match op {
            // ---- scalars
            "sc1" => {
                let x = sc(a, "x");
                let mut sq = Scalar::default();
                sq.sqr_in_place(&x);
                let mut iv = Scalar::default();
                iv.inv_in_place(&x);
                let mut c0 = x;
                c0.cond_neg_assign(Choice::from(0));
                let mut c1 = x;
                c1.cond_neg_assign(Choice::from(1));
                let neg = -x;
                let same = -&x == neg
                    && x.sqr() == sq
                    && slands(&sq, |t| t.sqr_in_place(&x))
                    && slands(&x, |t| { let _ = t.set_b32(&x.b32()); })
                    && x.inv() == iv
                    && x.inv_var() == iv
                    && { let mut b = [0xa5u8; 32]; x.fill_b32(&mut b); b == x.b32() };
                json!({"r": "ok", "neg": hs(&neg), "sqr": hs(&sq), "inv": hs(&iv), "cn0": hs(&c0), "cn1": hs(&c1),
                       "b32": hex(&x.b32()), "txt": format!("{:x}", x), "zero": x.is_zero(), "one": x.is_one(),
                       "even": x.is_even(), "high": x.is_high(), "same": same})
            }
            "sc2" => {
                let (x, y) = (sc(a, "x"), sc(a, "y"));
                let add = x + y;
                let mul = x * y;
                let (mut p, mut q, mut t, mut u, mut m) = (x, x, x, x, Scalar::default());
                p += y;
                q += &y;
                t *= y;
                u *= &y;
                m.mul_in_place(&x, &y);
                let same = &x + &y == add && p == add && q == add && &x * &y == mul && t == mul && u == mul && m == mul
                    && slands(&mul, |t| t.mul_in_place(&x, &y))
                    && (x != y) == !(x == y);
                json!({"r": "ok", "add": hs(&add), "mul": hs(&mul), "eq": x == y, "same": same})
            }
            "sc_b32" => {
                let mut x = Scalar([0x5a5a5a5a; 8]);
                let o: bool = x.set_b32(&h32(a, "b")).into();
                json!({"r": "ok", "v": hs(&x), "ovf": o})
            }
            "sc_bits" => {
                let x = sc(a, "x");
                let (off, cnt) = (n(a, "off"), n(a, "cnt"));
                let fix = if (off + cnt - 1) / 32 == off / 32 { x.bits(off, cnt) as i64 } else { -1 };
                json!({"r": "ok", "var": x.bits_var(off, cnt), "fix": fix})
            }
            "sc_word" => json!({"r": "ok", "v": format!("{:08x}", sc(a, "x").bits(32 * n(a, "i"), 32))}),
            "sc_shr" => {
                let mut x = sc(a, "x");
                let l = x.shr_int(n(a, "n"));
                json!({"r": "ok", "v": hs(&x), "n": l})
            }
            "sc_addbit" => {
                let mut x = sc(a, "x");
                x.cadd_bit(n(a, "bit"), b(a, "flag"));
                json!({"r": "ok", "v": hs(&x)})
            }
            "sc_int" => {
                let v = u32::from_be_bytes(arr(&h(a, "v")));
                let x = Scalar::from_int(v);
                let mut y = Scalar([7; 8]);
                y.set_int(v);
                json!({"r": "ok", "v": hs(&x), "same": x == y})
            }

            // ---- field elements
            "fe_raw" => {
                let l: Vec<u32> = a["l"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
                let mut k = [0u32; 10];
                k.copy_from_slice(&l);
                self.putf(a, raw(&k), true)
            }
            "fe_new" => {
                let w = words(&h32(a, "b"));
                let f = Field::new(w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0]);
                self.putf(a, f, true)
            }
            "fe_b32" => {
                let mut f = fe(&[0xff; 32], 3);
                if f.set_b32(&h32(a, "b")) {
                    let mut o = [0xa5u8; 32];
                    f.fill_b32(&mut o);
                    let same = o == f.b32();
                    self.putf(a, f, same)
                } else {
                    self.f[n(a, "d")] = None;
                    err("overflow")
                }
            }
            "fe_int" => {
                let mut f = fe(&[0xff; 32], 3);
                f.set_int(n(a, "n") as u32);
                let same = feq(&f, &Field::from_int(n(a, "n") as u32));
                self.putf(a, f, same)
            }
            "fe_clear" => {
                let mut f = fe(&[0xff; 32], 3);
                f.clear();
                let same = feq(&f, &Field::default());
                self.putf(a, f, same)
            }
            "fe_copy" => {
                let x = need!(self.f[n(a, "x")]);
                self.putf(a, x, true)
            }
            "fe_look" => fobs(&need!(self.f[n(a, "x")]), true),
            "fe_add" => {
                let (x, y) = (need!(self.f[n(a, "x")]), need!(self.f[n(a, "y")]));
                let r = x + y;
                let (mut p, mut q) = (x, x);
                p += y;
                q += &y;
                let same = feq(&(&x + &y), &r) && feq(&p, &r) && feq(&q, &r);
                self.putf(a, r, same)
            }
            "fe_neg" => {
                let x = need!(self.f[n(a, "x")]);
                let m = n(a, "m") as u32;
                let r = x.neg(m);
                let mut q = Field::default();
                q.neg_in_place(&x, m);
                let same = feq(&q, &r) && flands(&r, |t| t.neg_in_place(&x, m));
                self.putf(a, r, same)
            }
            "fe_muli" => {
                let mut x = need!(self.f[n(a, "x")]);
                x.mul_int(n(a, "n") as u32);
                self.putf(a, x, true)
            }
            "fe_mul" => {
                let (x, y) = (need!(self.f[n(a, "x")]), need!(self.f[n(a, "y")]));
                let r = x * y;
                let (mut p, mut q, mut t) = (x, x, fe(&[0xff; 32], 3));
                p *= y;
                q *= &y;
                t.mul_in_place(&x, &y);
                let same = feq(&(&x * &y), &r) && feq(&p, &r) && feq(&q, &r) && feq(&t, &r)
                    && flands(&r, |t| t.mul_in_place(&x, &y));
                self.putf(a, r, same)
            }
            "fe_sqr" => {
                let x = need!(self.f[n(a, "x")]);
                let r = x.sqr();
                let mut t = fe(&[0xff; 32], 3);
                t.sqr_in_place(&x);
                let same = feq(&t, &r) && flands(&r, |t| t.sqr_in_place(&x));
                self.putf(a, r, same)
            }
            "fe_inv" => {
                let x = need!(self.f[n(a, "x")]);
                let r = x.inv();
                let same = feq(&x.inv_var(), &r);
                self.putf(a, r, same)
            }
            "fe_sqrt" => {
                let x = need!(self.f[n(a, "x")]);
                let (r, ok) = x.sqrt();
                let mut o = self.putf(a, r, true);
                o["ok"] = json!(ok);
                o
            }
            "fe_quad" => ok_b(need!(self.f[n(a, "x")]).is_quad_var()),
            "fe_norm" => {
                let mut x = need!(self.f[n(a, "x")]);
                match s(a, "kind") {
                    "full" => x.normalize(),
                    "var" => x.normalize_var(),
                    _ => x.normalize_weak(),
                }
                self.putf(a, x, true)
            }
            "fe_cmov" => {
                let (mut x, y) = (need!(self.f[n(a, "x")]), need!(self.f[n(a, "y")]));
                x.cmov(&y, b(a, "flag"));
                self.putf(a, x, true)
            }
            "fe_store" => {
                let x = need!(self.f[n(a, "x")]);
                let w: FieldStorage = x.into();
                let back: Field = w.into();
                let w2 = FieldStorage::new(w.0[7], w.0[6], w.0[5], w.0[4], w.0[3], w.0[2], w.0[1], w.0[0]);
                let mut c = FieldStorage::default();
                c.cmov(&w, false);
                let mut same = c == FieldStorage::default() && w2 == w;
                c.cmov(&w, true);
                same = same && c == w;
                let mut o = self.putf(a, back, same);
                o["w"] = json!(hex(&octets(&w.0)));
                o
            }
            "fe_zero" => ok_b(need!(self.f[n(a, "x")]).is_zero()),
            "fe_odd" => ok_b(need!(self.f[n(a, "x")]).is_odd()),
            "fe_cmp" => {
                let (x, y) = (need!(self.f[n(a, "x")]), need!(self.f[n(a, "y")]));
                let c = x.cmp_var(&y);
                if x.cmp(&y) != c || x.partial_cmp(&y) != Some(c) || (x < y) != (c == Ordering::Less) {
                    return err("cmp differs");
                }
                ok_n(match c {
                    Ordering::Less => -1,
                    Ordering::Equal => 0,
                    Ordering::Greater => 1,
                })
            }
            "fe_eq" => {
                let (x, y) = (need!(self.f[n(a, "x")]), need!(self.f[n(a, "y")]));
                if (x != y) == (x == y) {
                    return err("eq and ne");
                }
                ok_b(x == y)
            }
            "fe_eqvar" => ok_b(need!(self.f[n(a, "x")]).eq_var(&need!(self.f[n(a, "y")]))),

            // ---- points
            "ge_set" => {
                let (x, y) = (fe(&h32(a, "x"), n(a, "rep")), fe(&h32(a, "y"), n(a, "rep")));
                let mut p = AFFINE_INFINITY;
                p.set_xy(&x, &y);
                let q = Affine::new(x, y);
                if !alands(&q, |t| t.set_xy(&x, &y)) {
                    return err("the point depends on where it is put");
                }
                if !feq(&p.x, &q.x) || !feq(&p.y, &q.y) || q.infinity {
                    return err("new differs from set_xy");
                }
                self.puta(a, p)
            }
            "ge_inf" => self.puta(a, AFFINE_INFINITY),
            "ge_gen" => self.puta(a, AFFINE_G),
            "gej_inf" => {
                let mut p = JACOBIAN_INFINITY;
                if b(a, "alt") {
                    p = Jacobian::from_ge(&AFFINE_G);
                    p.set_infinity();
                }
                self.putj(a, p)
            }
            "ge_xo" | "ge_xquad" => {
                let x = fe(&h32(a, "x"), n(a, "rep"));
                let mut p = AFFINE_INFINITY;
                let ok = if op == "ge_xo" { p.set_xo_var(&x, b(a, "odd")) } else { p.set_xquad(&x) };
                for t in aplaces() {
                    let mut t = t;
                    let o = if op == "ge_xo" { t.set_xo_var(&x, b(a, "odd")) } else { t.set_xquad(&x) };
                    if o != ok || ok && aobs(&t) != aobs(&p) {
                        return err("the point depends on where it is put");
                    }
                }
                if ok {
                    self.puta(a, p)
                } else {
                    self.a[n(a, "d")] = None;
                    err("none")
                }
            }
            "ge_valid" => {
                let rep = n(a, "rep");
                let mut p = Affine::new(fe(&h32(a, "x"), rep), fe(&h32(a, "y"), rep));
                p.infinity = b(a, "inf");
                ok_b(p.is_valid_var())
            }
            "ge_isinf" => ok_b(need!(self.a[n(a, "x")]).is_infinity()),
            "ge_look" => aobs(&need!(self.a[n(a, "x")])),
            "ge_neg" => {
                let p = need!(self.a[n(a, "x")]);
                let r = p.neg();
                if !alands(&r, |q| q.neg_in_place(&p)) {
                    return err("neg differs from neg_in_place");
                }
                self.puta(a, r)
            }
            "ge_store" => {
                let p = need!(self.a[n(a, "x")]);
                let w: AffineStorage = p.into();
                let mut c = AffineStorage::default();
                c.cmov(&w, false);
                if c != AffineStorage::default() {
                    return err("cmov(false)");
                }
                c.cmov(&w, true);
                if c != AffineStorage::new(w.x, w.y) {
                    return err("cmov(true)");
                }
                self.puta(a, c.into())
            }
            "ge_eq" => {
                let (p, q) = (need!(self.a[n(a, "x")]), need!(self.a[n(a, "y")]));
                ok_b(p == q)
            }
            "gej_from" => {
                let p = need!(self.a[n(a, "x")]);
                let r = Jacobian::from_ge(&p);
                if !lands(&r, &r, |q| q.set_ge(&p)) {
                    return err("from_ge differs from set_ge");
                }
                self.putj(a, r)
            }
            "gej_copy" => {
                let p = need!(self.j[n(a, "x")]);
                self.putj(a, p)
            }
            "gej_rescale" => {
                let mut p = need!(self.j[n(a, "x")]);
                let z = fe(&h32(a, "s"), 0);
                p.rescale(&z);
                self.putj(a, p)
            }
            "gej_dbl" => {
                let p = need!(self.j[n(a, "x")]);
                let mut rz = Field::from_int(5);
                let want = b(a, "rzr");
                let r = p.double_var(if want { Some(&mut rz) } else { None });
                if !lands(&p, &r, |q| q.double_var_in_place(&p, None)) {
                    return err("double differs in place");
                }
                self.putjz(a, r, &p.z, if want { Some(rz) } else { None })
            }
            "gej_dblnz" => {
                let p = need!(self.j[n(a, "x")]);
                let mut rz = Field::from_int(5);
                let want = b(a, "rzr");
                let mut r = Jacobian::from_ge(&AFFINE_G);
                r.double_nonzero_in_place(&p, if want { Some(&mut rz) } else { None });
                if !lands(&p, &r, |q| q.double_nonzero_in_place(&p, None)) {
                    return err("double depends on where it is put");
                }
                self.putjz(a, r, &p.z, if want { Some(rz) } else { None })
            }
            "gej_neg" => {
                let p = need!(self.j[n(a, "x")]);
                let r = p.neg();
                if !lands(&p, &r, |q| q.neg_in_place(&p)) {
                    return err("neg differs in place");
                }
                self.putj(a, r)
            }
            "gej_add" => {
                let (p, q) = (need!(self.j[n(a, "x")]), need!(self.j[n(a, "y")]));
                let mut rz = Field::from_int(5);
                let want = b(a, "rzr");
                let r = p.add_var(&q, if want { Some(&mut rz) } else { None });
                if !lands(&p, &r, |t| t.add_var_in_place(&p, &q, None)) {
                    return err("add differs in place");
                }
                self.putjz(a, r, &p.z, if want { Some(rz) } else { None })
            }
            "gej_addge" => {
                let (p, q) = (need!(self.j[n(a, "x")]), need!(self.a[n(a, "y")]));
                let r = p.add_ge(&q);
                if !lands(&p, &r, |t| t.add_ge_in_place(&p, &q)) {
                    return err("add differs in place");
                }
                self.putj(a, r)
            }
            "gej_addgev" => {
                let (p, q) = (need!(self.j[n(a, "x")]), need!(self.a[n(a, "y")]));
                let mut rz = Field::from_int(5);
                let want = b(a, "rzr");
                let r = p.add_ge_var(&q, if want { Some(&mut rz) } else { None });
                if !lands(&p, &r, |t| t.add_ge_var_in_place(&p, &q, None)) {
                    return err("add differs in place");
                }
                self.putjz(a, r, &p.z, if want { Some(rz) } else { None })
            }
            "gej_addz" => {
                let mut p = need!(self.j[n(a, "x")]);
                let mut q = Affine::new(fe(&h32(a, "bx"), n(a, "rep")), fe(&h32(a, "by"), n(a, "rep")));
                if b(a, "binf") {
                    q = AFFINE_INFINITY;
                }
                let w = fe(&h32(a, "zinv"), n(a, "rep"));
                let r = p.add_zinv_var(&q, &w);
                if !lands(&p, &r, |t| t.add_zinv_var_in_place(&p, &q, &w)) {
                    return err("add differs in place");
                }
                self.putj(a, r)
            }
            "gej_aff" => {
                let p = need!(self.j[n(a, "x")]);
                let set = |r: &mut Affine| match s(a, "kind") {
                    "ct" => r.set_gej(&p),
                    "var" => r.set_gej_var(&p),
                    "from" => *r = Affine::from_gej(&p),
                    _ => {
                        let zi = p.z.inv();
                        r.set_gej_zinv(&p, &zi)
                    }
                };
                let mut r = AFFINE_G;
                set(&mut r);
                if !alands(&r, set) {
                    return err("the conversion depends on where it is put");
                }
                self.puta(a, r)
            }
            "gej_eqx" => ok_b(need!(self.j[n(a, "x")]).eq_x_var(&fe(&h32(a, "v"), n(a, "rep")))),
            "gej_quady" => ok_b(need!(self.j[n(a, "x")]).has_quad_y_var()),
            "tbl" => {
                let p = need!(self.j[n(a, "x")]);
                let k = n(a, "n");
                let mut prej = vec![Jacobian::default(); k];
                let mut zr = vec![Field::default(); k];
                odd_multiples_table(&mut prej, &mut zr, &p);
                let mut aff = vec![Affine::default(); k];
                set_table_gej_var(&mut aff, &prej, &zr);
                let mut glob = vec![Affine::default(); k];
                let mut gz = Field::default();
                globalz_set_table_gej(&mut glob, &mut gz, &prej, &zr);
                let t = |v: &Vec<Affine>| {
                    v.iter().map(|p| aobs(p)["v"].as_str().unwrap_or("").to_string()).collect::<Vec<_>>()
                };
                json!({"r": "ok", "aff": t(&aff), "glob": t(&glob), "gz": hv(&gz)})
            }

            // ---- multiplication
            "ecm" => {
                let p = need!(self.j[n(a, "x")]);
                let mut r = some_place(&sc(a, "ng"));
                self.with_mul(a, |c| c.ecmult(&mut r, &p, &sc(a, "na"), &sc(a, "ng")));
                self.putj(a, r)
            }
            "ecc" => {
                let p = need!(self.a[n(a, "x")]);
                let mut r = some_place(&sc(a, "k"));
                self.with_mul(a, |c| c.ecmult_const(&mut r, &p, &sc(a, "k")));
                self.putj(a, r)
            }
            "ecg" => {
                let mut r = some_place(&sc(a, "k"));
                self.with_gen(a, |c| c.ecmult_gen(&mut r, &sc(a, "k")));
                self.putj(a, r)
            }

            // ---- tables
            "tab_g" => self.with_mul(a, |c| {
                let t = c.inspect_raw();
                let (from, k) = (n(a, "from"), n(a, "n"));
                let v: Vec<String> = t[from..from + k].iter().map(storage).collect();
                let prev = if from == 0 { String::new() } else { storage(&t[from - 1]) };
                json!({"r": "ok", "v": v, "prev": prev})
            }),
            "tab_gen" => self.with_gen(a, |c| {
                let v: Vec<String> = c.inspect_raw()[n(a, "j")].iter().map(storage).collect();
                json!({"r": "ok", "v": v})
            }),
            "tab_sum" => self.with_gen(a, |c| {
                let v: Vec<String> = c.inspect_raw().iter().map(|w| storage(&w[0])).collect();
                json!({"r": "ok", "v": v})
            }),
            "tab_same" => {
                let (m, g) = (ECMultContext::new_boxed(), ECMultGenContext::new_boxed());
                #[allow(unused_mut)]
                let mut same = m.inspect_raw()[..] == self.mul.inspect_raw()[..]
                    && g.inspect_raw()[..] == self.gen.inspect_raw()[..];
                #[cfg(feature = "static-context")]
                {
                    same = same
                        && m.inspect_raw()[..] == libsecp256k1::ECMULT_CONTEXT.inspect_raw()[..]
                        && g.inspect_raw()[..] == libsecp256k1::ECMULT_GEN_CONTEXT.inspect_raw()[..];
                }
                ok_b(same)
            }
            _ => err("unsupported"),
        }
    }
}

fn main() {
    main_loop(Regs::new());
}
