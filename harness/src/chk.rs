//! The step shared by the format checks: build, decode with the real decoder, compare with the model.
use crate::{fmt::*, run::*};
pub fn mix(a: usize, b: usize, s: usize) -> u32 { let mut x = (a as u32).wrapping_mul(0x9E3779B1) ^ (b as u32).wrapping_mul(0x85EBCA6B) ^ (s as u32).wrapping_mul(0xC2B2AE35); x ^= x >> 15; x = x.wrapping_mul(0x2C1B3C6D); x ^= x >> 12; x }
pub fn check(ctx: &mut Ctx, doc: &Doc, e: &Exp, what: &dyn Fn() -> String) {
    let bytes = doc.bytes();
    ctx.begin(|| (what(), bytes.clone()));
    ctx.states += 1;
    ctx.transitions += e.data.len() as u64;
    match ctx.decode(&bytes) {
        Err(m) => ctx.fail("err", &what(), &bytes, &format!("decoding failed: {}", m.replace('\n', " "))),
        Ok(i) => { ctx.outcome(hash(&i.data)); if let Err(m) = cmp_data(&i, e) { ctx.fail("sample", &what(), &bytes, &m); } }
    }
}
