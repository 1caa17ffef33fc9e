//! What is left in memory after a secret is cleared and goes out of scope.
//!
//! The object is a local variable of a function that fills it, clears it and
//! returns, which is what code handling a secret does. The bytes it occupied
//! are looked at in the caller as soon as the function has returned, before
//! anything else is called. A second object is looked at while it is alive.
use libsecp256k1::curve::{Affine, Field, Jacobian, Scalar};
use libsecp256k1::*;
use serde_json::{json, Value};
use std::hint::black_box;
use std::mem::{size_of, MaybeUninit};
use vharness::*;

const MAX: usize = 512;

fn image<T>(b: &T) -> String {
    let p = b as *const T as *const u8;
    let v: Vec<u8> = (0..size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect();
    hex(&v)
}

/// An object whose padding bytes, too, have a definite value.
macro_rules! local {
    ($T:ty, $k:ident, $v:ident, $fill:ident) => {
        let mut space = MaybeUninit::<$T>::uninit();
        let $k: &mut $T = unsafe {
            for i in 0..size_of::<$T>() {
                std::ptr::write_volatile((space.as_mut_ptr() as *mut u8).add(i), 0);
            }
            &mut *space.as_mut_ptr()
        };
        $fill($k, $v);
    };
}

struct Input {
    v: Vec<u8>,
    rep: usize,
    inf: bool,
}

fn set_field(f: &mut Field, b: &[u8], rep: usize) {
    let ok = f.set_b32(&arr(b));
    if !ok {
        panic!("not a field element");
    }
    if rep > 1 {
        f.mul_int(rep as u32);
    }
}
#[inline(never)]
fn fill_sk(k: &mut SecretKey, i: &Input) {
    *k = SecretKey::parse(&arr(&i.v)).expect("key");
}
#[inline(never)]
fn fill_scalar(k: &mut Scalar, i: &Input) {
    let _ = k.set_b32(&arr(&i.v));
}
#[inline(never)]
fn fill_field(k: &mut Field, i: &Input) {
    set_field(k, &i.v, i.rep);
}
#[inline(never)]
fn fill_affine(k: &mut Affine, i: &Input) {
    set_field(&mut k.x, &i.v[..32], i.rep);
    set_field(&mut k.y, &i.v[32..64], i.rep);
    k.infinity = i.inf;
}
#[inline(never)]
fn fill_jacobian(k: &mut Jacobian, i: &Input) {
    set_field(&mut k.x, &i.v[..32], i.rep);
    set_field(&mut k.y, &i.v[32..64], i.rep);
    set_field(&mut k.z, &i.v[64..96], i.rep);
    k.infinity = i.inf;
}

macro_rules! short_lived {
    ($name:ident, $T:ty, $fill:ident) => {
        #[inline(never)]
        fn $name(i: &Input, at: &mut usize) {
            local!($T, k, i, $fill);
            *at = k as *const $T as usize;
            k.clear();
        }
    };
}
short_lived!(gone_sk, SecretKey, fill_sk);
short_lived!(gone_scalar, Scalar, fill_scalar);
short_lived!(gone_field, Field, fill_field);
short_lived!(gone_affine, Affine, fill_affine);
short_lived!(gone_jacobian, Jacobian, fill_jacobian);

/// Calls f and copies n bytes from where its object was.
#[inline(never)]
fn residue(f: fn(&Input, &mut usize), i: &Input, n: usize) -> String {
    let mut out = [0u8; MAX];
    let mut at = 0usize;
    black_box(f)(i, &mut at);
    for j in 0..n {
        unsafe { out.as_mut_ptr().add(j).write_volatile(std::ptr::read_volatile((at + j) as *const u8)) };
    }
    hex(&out[..n])
}

struct Clear;
impl Executor for Clear {
    fn reset(&mut self) {}
    fn call(&mut self, op: &str, a: &Args) -> Value {
        let i = Input { v: h(a, "v"), rep: n(a, "rep"), inf: b(a, "inf") };
        let i = &i;
        macro_rules! run {
            ($T:ty, $fill:ident, $gone:ident, $zero:expr) => {{
                local!($T, live, i, $fill);

                black_box(&mut *live).clear();
                let after = image(live);
                let zero: bool = $zero(&*live);
                json!({"r": "ok", "live": after,
                       "gone": residue($gone, i, size_of::<$T>()), "zero": zero})
            }};
        }
        match op {
            "clear_sk" => {
                run!(SecretKey, fill_sk, gone_sk, |k: &SecretKey| k.is_zero() && k.serialize() == [0u8; 32])
            }
            "clear_scalar" => run!(Scalar, fill_scalar, gone_scalar, |k: &Scalar| k.is_zero()),
            "clear_field" => {
                run!(Field, fill_field, gone_field, |k: &Field| k.is_zero() && k.b32() == [0u8; 32])
            }
            "clear_affine" => {
                run!(Affine, fill_affine, gone_affine, |k: &Affine| k.x.is_zero() && k.y.is_zero() && !k.infinity)
            }
            "clear_jacobian" => {
                run!(Jacobian, fill_jacobian, gone_jacobian, |k: &Jacobian| k.x.is_zero()
                    && k.y.is_zero()
                    && k.z.is_zero()
                    && !k.infinity)
            }
            _ => err("unsupported"),
        }
    }
}

fn main() {
    main_loop(Clear);
}
