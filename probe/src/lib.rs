//! A program without the standard library that uses the library. It cannot
//! be built when anything below it brings the standard library in: there would be
//! two panic handlers.
#![no_std]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
use libsecp256k1::*;

struct None;
unsafe impl GlobalAlloc for None {
    unsafe fn alloc(&self, _: Layout) -> *mut u8 {
        core::ptr::null_mut()
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static A: None = None;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[no_mangle]
pub extern "C" fn decode(b: &[u8; 65], s: &[u8; 64], m: &[u8; 32], k: &[u8; 32]) -> u32 {
    let p = match PublicKey::parse(b) {
        Ok(p) => p,
        Err(_) => return 1,
    };
    let mut g = match Signature::parse_standard(s) {
        Ok(g) => g,
        Err(_) => return 2,
    };
    g.normalize_s();
    let k = match SecretKey::parse(k) {
        Ok(k) => k,
        Err(_) => return 3,
    };
    let m = Message::parse(m);
    with(&p, &g, &m, &k)
}

fn with(p: &PublicKey, g: &Signature, m: &Message, k: &SecretKey) -> u32 {
    let c = curve::ECMultContext::new_boxed();
    let d = curve::ECMultGenContext::new_boxed();
    let mut r = verify_with_context(m, g, p, &c) as u32;
    if let Ok(q) = recover_with_context(m, g, &RecoveryId::parse(0).unwrap(), &c) {
        r += q.serialize()[1] as u32;
    }
    r += PublicKey::from_secret_key_with_context(k, &d).serialize_compressed()[1] as u32;
    #[cfg(feature = "hmac")]
    {
        r += sign_with_context(m, k, &d).0.serialize()[0] as u32;
    }
    #[cfg(feature = "static-context")]
    {
        r += verify(m, g, p) as u32;
        r += PublicKey::from_secret_key(k).serialize()[1] as u32;
        let mut q = *p;
        let _ = q.tweak_add_assign(k);
        let _ = q.tweak_mul_assign(k);
    }
    #[cfg(all(feature = "hmac", feature = "static-context"))]
    {
        r += sign(m, k).0.serialize()[0] as u32;
    }
    r + g.serialize_der().as_ref().len() as u32
}
