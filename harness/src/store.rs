//! The public interface of the library as operations on a store.
#![allow(unused_imports, dead_code)]

use digest::generic_array::GenericArray;
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Field, Scalar};
use libsecp256k1::*;
use serde_json::{json, Value};
use sha2::Sha256;
use std::convert::{TryFrom, TryInto};
use crate::*;
use std::sync::Arc;

/// A digest whose output is its (33-byte) input.
#[derive(Clone, Default)]
struct Id33(Vec<u8>);
impl digest::Update for Id33 {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref());
    }
}
impl digest::FixedOutput for Id33 {
    type OutputSize = digest::consts::U33;
    fn finalize_into(self, out: &mut GenericArray<u8, Self::OutputSize>) {
        out.copy_from_slice(&self.0)
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, Self::OutputSize>) {
        out.copy_from_slice(&self.0);
        self.0.clear();
    }
}
impl digest::Reset for Id33 {
    fn reset(&mut self) {
        self.0.clear();
    }
}

/// Calls on a cursor over octets, up to the first failure that may have consumed something.
fn reader(a: &Args) -> Value {
    let b = h(a, "b");
    let mut d = libsecp256k1::util::Decoder::new(&b);
    let mut out = vec![];
    for c in a["calls"].as_array().unwrap() {
        let op = c["op"].as_str().unwrap();
        let k = c["n"].as_i64().unwrap() as usize; // below zero: near usize::MAX
        let r = match op {
            "remaining" => Ok(d.remaining_len().to_string()),
            "read" => d.read().map(|v| v.to_string()),
            "peek" => d.peek(k).map(|v| v.to_string()),
            "peek_slice" => d.peek_slice(k).map(hex),
            "skip" => d.skip(k).map(|_| String::new()),
            "sequence" => d.read_constructed_sequence().map(|_| String::new()),
            "len" => d.read_len().map(|v| v.to_string()),
            "integer" => d.read_integer().map(|v| hex(&v.b32())),
            "seq_len_lax" => d.read_seq_len_lax().map(|v| v.to_string()),
            "len_lax" => d.read_len_lax().map(|v| v.to_string()),
            _ => d.read_integer_lax().map(|v| hex(&v.b32())),
        };
        let failed = r.is_err();
        out.push(match r {
            Ok(t) => t,
            Err(e) => name(e)["r"].as_str().unwrap().to_string(),
        });
        if failed && !["read", "peek", "peek_slice", "skip"].contains(&op) {
            break;
        }
    }
    json!({"r": "ok", "res": out})
}

/// A generator that hands out a given stream, then 0x01 bytes.
struct Stream {
    data: Vec<u8>,
    pos: usize,
}
impl rand::RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for x in dest.iter_mut() {
            *x = self.data.get(self.pos).copied().unwrap_or(1);
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

const K: usize = 16;

/// Contexts built on the heap; they may be shared between threads.
pub struct Contexts {
    mul: Box<ECMultContext>,
    gen: Box<ECMultGenContext>,
}

impl Contexts {
    pub fn new() -> Arc<Contexts> {
        Arc::new(Contexts { mul: ECMultContext::new_boxed(), gen: ECMultGenContext::new_boxed() })
    }
}

pub struct Store {
    sk: [Option<SecretKey>; K],
    pk: [Option<PublicKey>; K],
    sg: [Option<Signature>; K],
    ms: [Option<Message>; K],
    ri: [Option<RecoveryId>; K],
    boxed: Arc<Contexts>,
}

fn name(e: Error) -> Value {
    err(&format!("{:?}", e))
}

fn scalar_of(b: &[u8; 32]) -> Scalar {
    let mut w = [0u32; 8];
    for i in 0..8 {
        w[i] = u32::from_be_bytes(arr(&b[28 - 4 * i..32 - 4 * i]));
    }
    Scalar(w)
}

fn octets_of(s: &Scalar) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..8 {
        b[28 - 4 * i..32 - 4 * i].copy_from_slice(&s.0[i].to_be_bytes());
    }
    b
}

fn sig_octets(g: &Signature) -> Vec<u8> {
    let mut v = octets_of(&g.r).to_vec();
    v.extend_from_slice(&octets_of(&g.s));
    v
}

/// The 256-bit integer as limbs of 26 bits; `rep` chooses a representation.
pub fn field_of(b: &[u8; 32], rep: usize) -> Field {
    let mut l = [0u32; 10];
    for i in 0..256 {
        let bit = (b[31 - i / 8] >> (i % 8)) & 1;
        l[i / 26] |= (bit as u32) << (i % 26);
    }
    let f = Field::new_raw(l[9], l[8], l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0]);
    match rep {
        0 => {
            let mut g = f;
            g.normalize();
            g
        }
        1 => f,
        2 => f.neg(1).neg(2),
        3 => {
            // what a weak normalisation leaves, which may still be above p
            let mut g = f.neg(1).neg(2);
            g.normalize_weak();
            g
        }
        4 => {
            // limbs that each hold a carry of the next one
            for i in (0..9).rev() {
                if l[i + 1] > 0 {
                    l[i + 1] -= 1;
                    l[i] += 1 << 26;
                }
            }
            if l.iter().take(9).any(|x| *x > 2 * 0x3ffffff) {
                return f;
            }
            Field::new_raw(l[9], l[8], l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0])
        }
        5 => {
            // p more, limb by limb
            let p = [0x3fffc2f, 0x3ffffbf, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3fffff];
            for i in 0..10 {
                l[i] += p[i];
            }
            Field::new_raw(l[9], l[8], l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0])
        }
        _ => {
            let mut g = f;
            g += Field::from_int(5);
            g += Field::from_int(5).neg(1);
            g
        }
    }
}

macro_rules! need {
    ($e:expr) => {
        match $e {
            Some(v) => v,
            None => return err("noarg"),
        }
    };
}

impl Store {
    pub fn new(boxed: Arc<Contexts>) -> Store {
        Store {
            sk: [None; K],
            pk: [None; K],
            sg: [None; K],
            ms: [None; K],
            ri: [None; K],
            boxed,
        }
    }

    fn is_static(&self, a: &Args) -> bool {
        cfg!(feature = "static-context") && s(a, "ctx") == "static"
    }

    fn put_sk(&mut self, a: &Args, r: Result<SecretKey, Error>) -> Value {
        match r {
            Ok(k) => {
                self.sk[n(a, "d")] = Some(k);
                ok_v(&k.serialize())
            }
            Err(e) => name(e),
        }
    }

    /// What every way to read the same document gave.
    fn one_pk(&mut self, a: &Args, got: Vec<Option<PublicKey>>) -> Value {
        let text = |p: &Option<PublicKey>| p.map(|p| p.serialize().to_vec());
        if got.iter().any(|p| text(p) != text(&got[0])) {
            return err("serde readers differ");
        }
        match got[0] {
            Some(p) => self.put_pk(a, Ok(p)),
            None => err("serde"),
        }
    }
    fn put_pk(&mut self, a: &Args, r: Result<PublicKey, Error>) -> Value {
        match r {
            Ok(k) => {
                self.pk[n(a, "d")] = Some(k);
                ok_v(&k.serialize())
            }
            Err(e) => name(e),
        }
    }

    fn put_sg(&mut self, a: &Args, r: Result<Signature, Error>) -> Value {
        match r {
            Ok(g) => {
                self.sg[n(a, "d")] = Some(g);
                ok_v(&sig_octets(&g))
            }
            Err(e) => name(e),
        }
    }

    #[cfg(feature = "static-context")]
    fn derive(&self, k: &SecretKey, a: &Args) -> PublicKey {
        if self.is_static(a) {
            PublicKey::from_secret_key(k)
        } else {
            PublicKey::from_secret_key_with_context(k, &self.boxed.gen)
        }
    }
    #[cfg(not(feature = "static-context"))]
    fn derive(&self, k: &SecretKey, _a: &Args) -> PublicKey {
        PublicKey::from_secret_key_with_context(k, &self.boxed.gen)
    }

    #[cfg(all(feature = "hmac", feature = "static-context"))]
    fn do_sign(&self, m: &Message, k: &SecretKey, a: &Args) -> Option<(Signature, RecoveryId)> {
        Some(if self.is_static(a) {
            sign(m, k)
        } else {
            sign_with_context(m, k, &self.boxed.gen)
        })
    }
    #[cfg(all(feature = "hmac", not(feature = "static-context")))]
    fn do_sign(&self, m: &Message, k: &SecretKey, _a: &Args) -> Option<(Signature, RecoveryId)> {
        Some(sign_with_context(m, k, &self.boxed.gen))
    }
    #[cfg(not(feature = "hmac"))]
    fn do_sign(&self, _: &Message, _: &SecretKey, _: &Args) -> Option<(Signature, RecoveryId)> {
        None
    }

    fn do_sign_raw(
        &self,
        m: &Message,
        k: &SecretKey,
        nonce: &Scalar,
        a: &Args,
    ) -> Result<(Scalar, Scalar, u8), Error> {
        let d: Scalar = (*k).into();
        #[cfg(feature = "static-context")]
        if self.is_static(a) {
            return ECMULT_GEN_CONTEXT.sign_raw(&d, &m.0, nonce);
        }
        let _ = a;
        self.boxed.gen.sign_raw(&d, &m.0, nonce)
    }

    fn do_verify(&self, m: &Message, g: &Signature, p: &PublicKey, a: &Args) -> bool {
        #[cfg(feature = "static-context")]
        if self.is_static(a) {
            return verify(m, g, p);
        }
        let _ = a;
        verify_with_context(m, g, p, &self.boxed.mul)
    }

    fn do_recover(
        &self,
        m: &Message,
        g: &Signature,
        i: &RecoveryId,
        a: &Args,
    ) -> Result<PublicKey, Error> {
        #[cfg(feature = "static-context")]
        if self.is_static(a) {
            return recover(m, g, i);
        }
        let _ = a;
        recover_with_context(m, g, i, &self.boxed.mul)
    }

    fn do_ecdh<D: digest::Digest + Default>(
        &self,
        p: &PublicKey,
        k: &SecretKey,
        a: &Args,
    ) -> Value {
        #[cfg(feature = "static-context")]
        if self.is_static(a) {
            return match SharedSecret::<D>::new(p, k) {
                Ok(v) => ok_v(v.as_ref()),
                Err(e) => name(e),
            };
        }
        let _ = a;
        match SharedSecret::<D>::new_with_context(p, k, &self.boxed.mul) {
            Ok(v) => ok_v(v.as_ref()),
            Err(e) => name(e),
        }
    }

    /// Everything that is promised about a signature just made.
    fn sign_obs(&self, k: &SecretKey, m: &Message, g: &Signature, i: u8, a: &Args) -> Value {
        let pk = self.derive(k, a);
        let rid = RecoveryId::parse(i);
        let rec = match rid {
            Ok(i) => match self.do_recover(m, g, &i, a) {
                Ok(p) => hex(&p.serialize()),
                Err(e) => format!("{:?}", e),
            },
            Err(e) => format!("{:?}", e),
        };
        json!({"r": "ok", "v": hex(&sig_octets(g)), "n": i,
               "pk": hex(&pk.serialize()), "ver": self.do_verify(m, g, &pk, a), "rec": rec})
    }
}

impl Executor for Store {
    fn reset(&mut self) {
        self.sk = [None; K];
        self.pk = [None; K];
        self.sg = [None; K];
        self.ms = [None; K];
        self.ri = [None; K];
    }

    fn call(&mut self, op: &str, a: &Args) -> Value {
        match op {
            // ---- secret keys
            "sk_parse" => {
                let r = SecretKey::parse(&h32(a, "b"));
                self.put_sk(a, r)
            }
            "sk_parse_slice" => {
                let r = SecretKey::parse_slice(&h(a, "b"));
                self.put_sk(a, r)
            }
            "sk_from_scalar" => {
                let r = SecretKey::try_from(scalar_of(&h32(a, "b")));
                self.put_sk(a, r)
            }
            "sk_default" => self.put_sk(a, Ok(SecretKey::default())),
            "sk_random" => {
                let mut rng = Stream { data: h(a, "b"), pos: 0 };
                let k = SecretKey::random(&mut rng);
                self.sk[n(a, "d")] = Some(k);
                json!({"r": "ok", "v": hex(&k.serialize()), "n": rng.pos})
            }
            "sk_ser" => ok_v(&need!(self.sk[n(a, "k")]).serialize()),
            "sk_hex" => json!({"r": "ok", "t": format!("{:x}", need!(self.sk[n(a, "k")]))}),
            "sk_scalar" => {
                let v: Scalar = need!(self.sk[n(a, "k")]).into();
                ok_v(&octets_of(&v))
            }
            "sk_inv" => {
                let k = need!(self.sk[n(a, "k")]);
                self.put_sk(a, Ok(k.inv()))
            }
            "sk_copy" => {
                let k = need!(self.sk[n(a, "k")]);
                self.put_sk(a, Ok(k))
            }
            "sk_tadd" | "sk_tmul" => {
                let mut k = need!(self.sk[n(a, "k")]);
                let t = need!(self.sk[n(a, "t")]);
                let r = if op == "sk_tadd" {
                    k.tweak_add_assign(&t)
                } else {
                    k.tweak_mul_assign(&t)
                };
                self.sk[n(a, "k")] = Some(k);
                match r {
                    Ok(()) => ok_v(&k.serialize()),
                    Err(e) => json!({"r": format!("{:?}", e), "v": hex(&k.serialize())}),
                }
            }
            "sk_clear" => {
                need!(self.sk[n(a, "k")]);
                let k = self.sk[n(a, "k")].as_mut().unwrap();
                k.clear();
                ok_b(k.is_zero())
            }
            "sk_is_zero" => ok_b(need!(self.sk[n(a, "k")]).is_zero()),
            "sk_eq" => ok_b(need!(self.sk[n(a, "k")]) == need!(self.sk[n(a, "t")])),

            // ---- public keys
            "pk_derive" => {
                let k = need!(self.sk[n(a, "k")]);
                let p = self.derive(&k, a);
                self.put_pk(a, Ok(p))
            }
            "pk_parse" => {
                let r = PublicKey::parse(&arr::<65>(&h(a, "b")));
                self.put_pk(a, r)
            }
            "pk_parse_comp" => {
                let r = PublicKey::parse_compressed(&arr::<33>(&h(a, "b")));
                self.put_pk(a, r)
            }
            "pk_parse_slice" => {
                let f = match s(a, "fmt") {
                    "none" => None,
                    "full" => Some(PublicKeyFormat::Full),
                    "comp" => Some(PublicKeyFormat::Compressed),
                    _ => Some(PublicKeyFormat::Raw),
                };
                let r = PublicKey::parse_slice(&h(a, "b"), f);
                self.put_pk(a, r)
            }
            "pk_ser" => ok_v(&need!(self.pk[n(a, "p")]).serialize()),
            "pk_serc" => ok_v(&need!(self.pk[n(a, "p")]).serialize_compressed()),
            "pk_copy" => {
                let p = need!(self.pk[n(a, "p")]);
                self.put_pk(a, Ok(p))
            }
            "pk_affine" => {
                let f: Affine = need!(self.pk[n(a, "p")]).into();
                let r = PublicKey::try_from(f);
                self.put_pk(a, r)
            }
            "pk_from_affine" => {
                let mut f = Affine::default();
                f.set_xy(
                    &field_of(&h32(a, "x"), n(a, "rep")),
                    &field_of(&h32(a, "y"), n(a, "rep")),
                );
                f.infinity = b(a, "inf");
                let r = PublicKey::try_from(f);
                self.put_pk(a, r)
            }
            "pk_tadd" | "pk_tmul" => {
                let mut p = need!(self.pk[n(a, "p")]);
                let t = need!(self.sk[n(a, "t")]);
                let r = self.pk_tweak(&mut p, &t, op == "pk_tadd", a);
                self.pk[n(a, "p")] = Some(p);
                match r {
                    Ok(()) => ok_v(&p.serialize()),
                    Err(e) => json!({"r": format!("{:?}", e), "v": hex(&p.serialize())}),
                }
            }
            "pk_combine" => {
                let mut ks = Vec::new();
                for i in a["ps"].as_array().expect("script: ps") {
                    ks.push(need!(self.pk[i.as_u64().unwrap() as usize]));
                }
                let r = PublicKey::combine(&ks);
                self.put_pk(a, r)
            }
            "pk_eq" => ok_b(need!(self.pk[n(a, "p")]) == need!(self.pk[n(a, "q")])),
            #[cfg(feature = "std")]
            "pk_json" => {
                let p = need!(self.pk[n(a, "p")]);
                let doc = serde_json::to_string(&p).unwrap();
                let text: String = serde_json::from_str(&doc).unwrap();
                if serde_json::to_value(&p).unwrap() != Value::String(text.clone())
                    || serde_json::to_vec(&p).unwrap() != doc.as_bytes()
                {
                    return err("serde writers differ");
                }
                ok_v(text.as_bytes())
            }
            #[cfg(feature = "std")]
            "pk_bin" => {
                let p = need!(self.pk[n(a, "p")]);
                let doc = bincode::serialize(&p).unwrap();
                let mut out = vec![];
                bincode::serialize_into(&mut out, &p).unwrap();
                if out != doc || bincode::serialized_size(&p).unwrap() != doc.len() as u64 {
                    return err("serde writers differ");
                }
                ok_v(&doc)
            }
            #[cfg(feature = "std")]
            "pk_from_json" | "pk_from_doc" => {
                // the text may come borrowed, copied, from a stream, escaped or already parsed
                let text = String::from_utf8(h(a, "t")).expect("script: utf8");
                let mut docs = vec![if op == "pk_from_json" { serde_json::to_string(&text).unwrap() } else { text.clone() }];
                if op == "pk_from_json" {
                    docs.push(format!("\"{}\"", text.encode_utf16().map(|c| format!("\\u{:04x}", c)).collect::<String>()));
                }
                let mut got: Vec<Option<PublicKey>> = vec![];
                for doc in &docs {
                    got.push(serde_json::from_str(doc).ok());
                    got.push(serde_json::from_slice(doc.as_bytes()).ok());
                    got.push(serde_json::from_reader(doc.as_bytes()).ok());
                    if let Ok(v) = serde_json::from_str::<Value>(doc) {
                        got.push(serde_json::from_value(v).ok());
                    }
                }
                self.one_pk(a, got)
            }
            #[cfg(feature = "std")]
            "pk_from_bin" => {
                let body = h(a, "b");
                let mut doc = (body.len() as u64).to_le_bytes().to_vec();
                doc.extend_from_slice(&body);
                self.one_pk(a, vec![bincode::deserialize(&doc).ok(), bincode::deserialize_from(&doc[..]).ok()])
            }

            // ---- signatures
            "sg_parse_std" => {
                let r = Signature::parse_standard(&arr::<64>(&h(a, "b")));
                self.put_sg(a, r)
            }
            "sg_parse_ovf" => {
                let r = Signature::parse_overflowing(&arr::<64>(&h(a, "b")));
                self.put_sg(a, Ok(r))
            }
            "sg_std_slice" => {
                let r = Signature::parse_standard_slice(&h(a, "b"));
                self.put_sg(a, r)
            }
            "sg_ovf_slice" => {
                let r = Signature::parse_overflowing_slice(&h(a, "b"));
                self.put_sg(a, r)
            }
            "sg_raw" => {
                let g = Signature { r: scalar_of(&h32(a, "r")), s: scalar_of(&h32(a, "s")) };
                self.put_sg(a, Ok(g))
            }
            "sg_copy" => {
                let g = need!(self.sg[n(a, "g")]);
                self.put_sg(a, Ok(g))
            }
            "sg_der" => {
                let r = Signature::parse_der(&h(a, "b"));
                self.put_sg(a, r)
            }
            "sg_lax" => {
                let r = Signature::parse_der_lax(&h(a, "b"));
                self.put_sg(a, r)
            }
            "sg_ser" => ok_v(&need!(self.sg[n(a, "g")]).serialize()),
            "sg_ser_der" => {
                let d = need!(self.sg[n(a, "g")]).serialize_der();
                if d.len() != d.as_ref().len() || d.is_empty() {
                    return err("length");
                }
                ok_v(d.as_ref())
            }
            "sg_arr" => {
                let mut d = libsecp256k1::util::SignatureArray::new(n(a, "n"));
                let zero = d.as_ref().iter().all(|x| *x == 0);
                for (i, x) in d.as_mut().iter_mut().enumerate() {
                    *x = i as u8;
                }
                json!({"r": "ok", "v": hex(d.as_ref()), "n": d.len(), "empty": d.is_empty(), "zero": zero})
            }
            "reader" => reader(a),
            "sg_norm" => {
                need!(self.sg[n(a, "g")]);
                let g = self.sg[n(a, "g")].as_mut().unwrap();
                g.normalize_s();
                ok_v(&sig_octets(g))
            }
            "sg_eq" => ok_b(need!(self.sg[n(a, "g")]) == need!(self.sg[n(a, "h")])),

            // ---- messages, recovery ids
            "ms_parse" => {
                let m = Message::parse(&h32(a, "b"));
                self.ms[n(a, "d")] = Some(m);
                ok_v(&octets_of(&m.0))
            }
            "ms_slice" => match Message::parse_slice(&h(a, "b")) {
                Ok(m) => {
                    self.ms[n(a, "d")] = Some(m);
                    ok_v(&octets_of(&m.0))
                }
                Err(e) => name(e),
            },
            "ms_ser" => ok_v(&need!(self.ms[n(a, "m")]).serialize()),
            "ri_parse" | "ri_rpc" => {
                let v = n(a, "n") as u8;
                let r = if op == "ri_parse" {
                    RecoveryId::parse(v)
                } else {
                    RecoveryId::parse_rpc(v)
                };
                match r {
                    Ok(i) => {
                        self.ri[n(a, "d")] = Some(i);
                        ok_n(i.serialize() as i64)
                    }
                    Err(e) => name(e),
                }
            }
            "ri_ser" => {
                let i = need!(self.ri[n(a, "i")]);
                let x: u8 = i.into();
                let y: i32 = i.into();
                if x as i32 == y && x == i.serialize() {
                    ok_n(y as i64)
                } else {
                    json!({"r": "ok", "n": [x as i64, y as i64, i.serialize() as i64]})
                }
            }

            // ---- signing and friends
            "sign" => {
                let k = need!(self.sk[n(a, "k")]);
                let m = need!(self.ms[n(a, "m")]);
                let (g, i) = need!(self.do_sign(&m, &k, a));
                self.sg[n(a, "g")] = Some(g);
                self.ri[n(a, "i")] = Some(i);
                json!({"r": "ok", "v": hex(&sig_octets(&g)), "n": i.serialize()})
            }
            "sign_raw" => {
                let k = need!(self.sk[n(a, "k")]);
                let m = need!(self.ms[n(a, "m")]);
                match self.do_sign_raw(&m, &k, &scalar_of(&h32(a, "nonce")), a) {
                    Ok((r, sv, i)) => {
                        let g = Signature { r, s: sv };
                        self.sg[n(a, "g")] = Some(g);
                        self.ri[n(a, "i")] = RecoveryId::parse(i).ok();
                        json!({"r": "ok", "v": hex(&sig_octets(&g)), "n": i})
                    }
                    Err(e) => name(e),
                }
            }
            "sign_full" => {
                let k = need!(self.sk[n(a, "k")]);
                let m = need!(self.ms[n(a, "m")]);
                let (g, i) = need!(self.do_sign(&m, &k, a));
                self.sign_obs(&k, &m, &g, i.serialize(), a)
            }
            "sign_raw_full" => {
                let k = need!(self.sk[n(a, "k")]);
                let m = need!(self.ms[n(a, "m")]);
                match self.do_sign_raw(&m, &k, &scalar_of(&h32(a, "nonce")), a) {
                    Ok((r, sv, i)) => self.sign_obs(&k, &m, &Signature { r, s: sv }, i, a),
                    Err(e) => name(e),
                }
            }
            "verify" => {
                let g = need!(self.sg[n(a, "g")]);
                let m = need!(self.ms[n(a, "m")]);
                let p = need!(self.pk[n(a, "p")]);
                ok_b(self.do_verify(&m, &g, &p, a))
            }
            "recover" => {
                let g = need!(self.sg[n(a, "g")]);
                let m = need!(self.ms[n(a, "m")]);
                let i = need!(self.ri[n(a, "i")]);
                let r = self.do_recover(&m, &g, &i, a);
                self.put_pk(a, r)
            }
            "ecdh" => {
                let p = need!(self.pk[n(a, "p")]);
                let k = need!(self.sk[n(a, "k")]);
                if s(a, "dig") == "id33" {
                    self.do_ecdh::<Id33>(&p, &k, a)
                } else {
                    self.do_ecdh::<Sha256>(&p, &k, a)
                }
            }
            "dump" => json!({
                "r": "ok",
                "sk": self.sk.iter().map(|x| x.map_or(String::new(), |v| hex(&v.serialize()))).collect::<Vec<_>>(),
                "pk": self.pk.iter().map(|x| x.map_or(String::new(), |v| hex(&v.serialize()))).collect::<Vec<_>>(),
                "sg": self.sg.iter().map(|x| x.map_or(String::new(), |v| hex(&sig_octets(&v)))).collect::<Vec<_>>(),
                "ms": self.ms.iter().map(|x| x.map_or(String::new(), |v| hex(&v.serialize()))).collect::<Vec<_>>(),
                "ri": self.ri.iter().map(|x| x.map_or(-1, |v| v.serialize() as i64)).collect::<Vec<_>>(),
            }),
            "surface" => {
                let g: Vec<&str> = self.surface();
                json!({"r": "ok", "groups": g})
            }
            _ => err("unsupported"),
        }
    }
}

impl Store {
    /// The groups of operations that are there and do something.
    fn surface(&self) -> Vec<&'static str> {
        let mut g = vec![];
        let one = SecretKey::default();
        let two = {
            let mut t = SecretKey::default();
            t.tweak_add_assign(&one).unwrap();
            t
        };
        let m = Message::parse(&[7; 32]);
        let boxed = json!({"ctx": "boxed"}).as_object().unwrap().clone();
        let shared = json!({"ctx": "static"}).as_object().unwrap().clone();
        let p = self.derive(&two, &boxed);
        if PublicKey::parse(&p.serialize()) == Ok(p) && PublicKey::parse_compressed(&p.serialize_compressed()) == Ok(p) {
            g.push("codecs");
            g.push("derive-ctx");
        }
        if SecretKey::parse(&two.serialize()) == Ok(two) && PublicKey::combine(&[p, p]).is_ok() {
            g.push("keys");
        }
        let tables = cfg!(feature = "static-context");
        for (a, there, names) in [
            (&boxed, true, ["verify-ctx", "recover-ctx", "ecdh-ctx", "tweak-ctx"]),
            (&shared, tables, ["verify", "recover", "ecdh", "tweak"]),
        ] {
            if !there {
                continue;
            }
            let mut k = Scalar::default();
            k.set_int(5);
            let (r, s, i) = self.do_sign_raw(&m, &two, &k, a).unwrap();
            let sig = Signature { r, s };
            if self.do_verify(&m, &sig, &p, a) {
                g.push(names[0]);
            }
            if self.do_recover(&m, &sig, &RecoveryId::parse(i).unwrap(), a) == Ok(p) {
                g.push(names[1]);
            }
            if self.do_ecdh::<Sha256>(&p, &two, a)["r"] == "ok" {
                g.push(names[2]);
            }
            let mut q = p;
            let mut q2 = p;
            if self.pk_tweak(&mut q, &two, true, a).is_ok() && self.pk_tweak(&mut q2, &two, false, a).is_ok() && q == q2 {
                g.push(names[3]);
            }
        }
        if tables && self.derive(&two, &shared) == p {
            g.push("derive");
        }
        if let Some((sig, _)) = self.do_sign(&m, &two, &boxed) {
            if self.do_verify(&m, &sig, &p, &boxed) {
                g.push("sign-ctx");
            }
        }
        if tables {
            if let Some((sig, _)) = self.do_sign(&m, &two, &shared) {
                if self.do_verify(&m, &sig, &p, &boxed) {
                    g.push("sign");
                }
            }
        }
        #[cfg(feature = "std")]
        {
            let t = serde_json::to_string(&p).unwrap();
            let q: PublicKey = serde_json::from_str(&t).unwrap();
            let e: Box<dyn std::error::Error> = Box::new(Error::InvalidSignature);
            if p == q && !e.to_string().is_empty() {
                g.push("serde");
            }
        }
        g
    }

    fn pk_tweak(
        &self,
        p: &mut PublicKey,
        t: &SecretKey,
        add: bool,
        a: &Args,
    ) -> Result<(), Error> {
        #[cfg(feature = "static-context")]
        if self.is_static(a) {
            return if add {
                p.tweak_add_assign(t)
            } else {
                p.tweak_mul_assign(t)
            };
        }
        let _ = a;
        if add {
            p.tweak_add_assign_with_context(t, &self.boxed.mul)
        } else {
            p.tweak_mul_assign_with_context(t, &self.boxed.mul)
        }
    }
}
