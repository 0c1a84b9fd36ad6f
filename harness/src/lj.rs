//! Lossless JPEG encoder model (ITU T.81 annex H, predictor 1) with explicit freedom in tables and headers.
use crate::bits::*;

/// a Huffman table as in a DHT segment
#[derive(Clone, Debug, PartialEq)]
pub struct Huff { pub bits: [u8; 16], pub vals: Vec<u8> }
impl Huff {
    /// from (length, value) pairs, shortest codes first
    pub fn from(mut lv: Vec<(u8, u8)>) -> Huff {
        lv.sort_by_key(|x| x.0);
        let mut bits = [0u8; 16];
        for x in lv.iter() { bits[x.0 as usize - 1] += 1; }
        Huff { bits, vals: lv.iter().map(|x| x.1).collect() }
    }
    /// code and length per value; None if the lengths do not make a prefix code that leaves the all-ones word free
    pub fn codes(&self) -> Option<Vec<Option<(u32, u32)>>> {
        let mut r = vec![None; 256];
        let (mut code, mut k) = (0u32, 0);
        for l in 1..17u32 {
            for _ in 0..self.bits[l as usize - 1] {
                if code >= (1 << l) - 1 { return None; }
                r[self.vals[k] as usize] = Some((code, l));
                code += 1; k += 1;
            }
            code <<= 1;
        }
        Some(r)
    }
    /// every category 0..=16 with code lengths growing one by one from `first`, values rotated by `rot`
    pub fn chain(first: u8, rot: usize) -> Huff {
        // six lengths growing by one, the rest share the shortest length that fits (one word stays free)
        let mut lens: Vec<u8> = (0..6).map(|i| first + i).collect();
        let left: f64 = 1.0 - lens.iter().map(|&x| 0.5f64.powi(x as i32)).sum::<f64>();
        let l = (first + 6..=16).find(|&l| 11.0 * 0.5f64.powi(l as i32) < left).expect("fits");
        for _ in 0..11 { lens.push(l); }
        Huff::from(lens.iter().enumerate().map(|(i, &l)| (l, ((i + rot) % 17) as u8)).collect())
    }
    pub fn flat(len: u8) -> Huff { Huff::from((0..17).map(|v| (len, v)).collect()) }
}
pub fn cat(d: i32) -> u32 { if d == -32768 || d == 32768 { 16 } else { 32 - (d.unsigned_abs()).leading_zeros() } }
/// magnitude bits of a difference in its category
pub fn mag(d: i32) -> (u32, u32) { let n = cat(d); if n == 0 || n == 16 { (0, 0) } else if d > 0 { (d as u32, n) } else { ((d + (1 << n) - 1) as u32, n) } }
/// the difference that turns p into s modulo 65536, in -32768..=32767
pub fn diff(s: u16, p: u16) -> i32 { s.wrapping_sub(p) as i16 as i32 }

#[derive(Clone)]
pub struct Lj {
    pub prec: u8, pub w: usize, pub h: usize, pub cps: usize,
    /// tables by identifier, and the one each component uses
    pub tables: Vec<(u8, Huff)>, pub sel: Vec<u8>,
    pub samp: u8, pub pred: u8,
    /// header freedoms: tables in one segment, SOF before the tables, an APP0 segment first, component ids
    pub one_dht: bool, pub sof_first: bool, pub app: bool, pub ids: Vec<u8>, pub sos_ids: Option<Vec<u8>>,
    /// skip 16 bits after category 16 (the bug of some writers)
    pub bug16: bool,
}
impl Lj {
    pub fn new(prec: u8, w: usize, h: usize, cps: usize, t: Huff) -> Lj {
        Lj { prec, w, h, cps, tables: vec![(0, t)], sel: vec![0; cps], samp: 0x11, pred: 1, one_dht: false, sof_first: true, app: false, ids: (1..=cps as u8).collect(), sos_ids: None, bug16: false }
    }
    pub fn head(&self) -> Vec<u8> {
        let mut o = vec![0xff, 0xd8];
        if self.app { o.extend([0xff, 0xe0, 0, 6, 0x11, 0x22, 0x33, 0x44]); }
        let mut sof = vec![0xff, 0xc3, 0, 8 + 3 * self.cps as u8, self.prec];
        sof.extend((self.h as u16).to_be_bytes()); sof.extend((self.w as u16).to_be_bytes()); sof.push(self.cps as u8);
        for c in 0..self.cps { sof.extend([self.ids[c], if c == 0 { self.samp } else { 0x11 }, 0]); }
        let body = |t: &(u8, Huff)| { let mut b = vec![t.0]; b.extend(t.1.bits); b.extend(&t.1.vals); b };
        let mut dht = Vec::new();
        if self.one_dht {
            let b: Vec<u8> = self.tables.iter().flat_map(|t| body(t)).collect();
            dht.extend([0xff, 0xc4]); dht.extend((b.len() as u16 + 2).to_be_bytes()); dht.extend(b);
        } else { for t in self.tables.iter() { let b = body(t); dht.extend([0xff, 0xc4]); dht.extend((b.len() as u16 + 2).to_be_bytes()); dht.extend(b); } }
        if self.sof_first { o.extend(sof); o.extend(dht); } else { o.extend(dht); o.extend(sof); }
        o.extend([0xff, 0xda, 0, 6 + 2 * self.cps as u8, self.cps as u8]);
        for c in 0..self.cps { o.extend([self.sos_ids.as_ref().map_or(self.ids[c], |x| x[c]), self.sel[c] << 4]); }
        o.extend([self.pred, 0, 0]);
        o
    }
    pub fn code(&self, c: usize) -> Vec<Option<(u32, u32)>> { self.tables.iter().find(|t| t.0 == self.sel[c]).unwrap().1.codes().expect("legal table") }
    /// false when the table has no code for the category
    pub fn put(&self, b: &mut Bits, codes: &[Option<(u32, u32)>], d: i32) -> bool {
        let n = cat(d);
        match codes[n as usize] {
            None => false,
            Some((c, l)) => { b.put(c, l); let (m, k) = mag(d); b.put(m, k); if n == 16 && self.bug16 { b.put(0x5a5a, 16); } true }
        }
    }
    /// `frame`: w*cps samples per line, h lines. None when a needed category has no code.
    pub fn scan(&self, frame: &[u16]) -> Option<Bits> {
        let n = self.w * self.cps;
        let codes: Vec<_> = (0..self.cps).map(|c| self.code(c)).collect();
        let mut b = Bits::new();
        for r in 0..self.h { for k in 0..n {
            let c = k % self.cps;
            let p = if k >= self.cps { frame[r * n + k - self.cps] } else if r > 0 { frame[(r - 1) * n + c] } else { 1u16 << (self.prec - 1) };
            if !self.put(&mut b, &codes[c], diff(frame[r * n + k], p)) { return None; }
        } }
        Some(b)
    }
    pub fn encode(&self, frame: &[u16]) -> Option<Vec<u8>> {
        let mut o = self.head();
        o.extend(self.scan(frame)?.jpeg());
        o.extend([0xff, 0xd9]);
        Some(o)
    }
}
/// YCbCr samples of a subsampled Canon frame: per 2-pixel (or 2x2) group the Ys, then Cb and Cr.
/// Returns the coded bits; predictors: Y from the previous Y in coding order (start of line: first Y of the line (pair) above), Cb/Cr likewise.
pub fn sraw(lj: &Lj, ypg: usize, rows: &[Vec<(Vec<u16>, u16, u16)>]) -> Option<Bits> {
    let codes: Vec<_> = (0..3).map(|c| lj.code(c)).collect();
    let base = 1u16 << (lj.prec - 1);
    let mut b = Bits::new();
    let mut above = (base, base, base);
    for row in rows {
        let (mut py, mut pb, mut pr) = above;
        for (i, (ys, cb, cr)) in row.iter().enumerate() {
            assert!(ys.len() == ypg);
            for &y in ys { if !lj.put(&mut b, &codes[0], diff(y, py)) { return None; } py = y; }
            if !lj.put(&mut b, &codes[1], diff(*cb, pb)) || !lj.put(&mut b, &codes[2], diff(*cr, pr)) { return None; }
            pb = *cb; pr = *cr;
            if i == 0 { above = (ys[0], *cb, *cr); }
        }
    }
    Some(b)
}
