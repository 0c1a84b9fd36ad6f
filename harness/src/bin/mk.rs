//! mk NAME > FILE: writes one of a few named fixture files (used for the demonstrations of planted bugs, by no check).
use harness::{fmt::*, lj::*};
use std::io::Write;
fn ramp(n: usize, max: u32, k: u32) -> Vec<u16> { (0..n).map(|i| ((i as u32 * k + 7) % (max + 1)) as u16).collect() }
fn main() {
    let n = std::env::args().nth(1).unwrap();
    let b = match n.as_str() {
        "orf_2048" => { let (w, h) = (512, 16); let s = ramp(w * h, 4095, 37); orf("OLYMPUS OPTICAL CO.,LTD", "C5050Z", w, h, vec![(w * h * 3 / 2) as u32], p12_fields(w, h, &s, 2048), OrfWb::Mul(300, 400), 0, false).bytes() }
        "lj16" => {
            let t = Huff::from((0..16u8).map(|i| (i + 1, i)).collect());
            let lj = Lj::new(16, 8, 6, 2, t);
            let f: Vec<u16> = (0..96u32).map(|i| ((32768 + (i % 7) * 3000 + i * i) as u16).wrapping_add(if i == 40 { 20000 } else { 0 })).collect();
            dng_lj(16, 6, 1, 16, lj.encode(&f).unwrap(), false).bytes()
        }
        _ => panic!("unknown"),
    };
    std::io::stdout().write_all(&b).unwrap();
}
