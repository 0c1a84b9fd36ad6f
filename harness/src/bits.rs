//! Bit-level writers (the inverse of the bit readers in the formats).
/// whether the builders leave out the bytes no reader needs
pub static TIGHT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn tight() -> bool { TIGHT.load(std::sync::atomic::Ordering::SeqCst) }
/// spare bytes behind sample data and metadata blocks
pub fn slack(n: usize) -> Vec<u8> { vec![0; if tight() { 0 } else { n }] }
#[derive(Clone, Default)]
pub struct Bits { pub v: Vec<bool> }
impl Bits {
    pub fn new() -> Bits { Bits { v: Vec::new() } }
    /// append the low n bits of val, most significant first
    pub fn put(&mut self, val: u32, n: u32) { for i in (0..n).rev() { self.v.push((val >> i) & 1 == 1); } }
    pub fn put64(&mut self, val: u64, n: u32) { for i in (0..n).rev() { self.v.push((val >> i) & 1 == 1); } }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn pad(&mut self, to: usize, bit: bool) { while self.v.len() % to != 0 { self.v.push(bit); } }
    /// plain big-endian bytes
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.clone(); b.pad(8, false);
        b.v.chunks(8).map(|c| c.iter().fold(0u8, |a, &x| a << 1 | x as u8)).collect()
    }
    /// JPEG entropy coded bytes: padded with ones, 0xff followed by 0x00
    pub fn jpeg(&self) -> Vec<u8> {
        let mut b = self.clone(); b.pad(8, true);
        let mut o = Vec::new();
        for x in b.bytes() { o.push(x); if x == 0xff { o.push(0); } }
        o
    }
    /// 32-bit little-endian words, filled most significant bit first
    pub fn msb32(&self) -> Vec<u8> {
        let mut b = self.clone(); b.pad(32, false);
        b.bytes().chunks(4).flat_map(|c| vec![c[3], c[2], c[1], c[0]]).collect()
    }
    pub fn words16le(&self) -> Vec<u8> {
        let mut b = self.clone(); b.pad(16, false);
        b.bytes().chunks(2).flat_map(|c| vec![c[1], c[0]]).collect()
    }
}
/// least-significant-bit-first stream: values appended low bit first, bytes filled from bit 0
#[derive(Clone, Default)]
pub struct LsbBits { pub v: Vec<bool> }
impl LsbBits {
    pub fn new() -> LsbBits { LsbBits { v: Vec::new() } }
    pub fn put(&mut self, val: u32, n: u32) { for i in 0..n { self.v.push((val >> i) & 1 == 1); } }
    pub fn bytes(&self) -> Vec<u8> {
        self.v.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, &x)| a | (x as u8) << i)).collect()
    }
}
