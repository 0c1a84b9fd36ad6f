//! Small valid files of every supported format, and what decoding them must give.
use crate::bits::*;
use crate::camdb::*;
use crate::tiffb::*;
use rawloader::RawImage;
use std::rc::Rc;

pub const NAN: f32 = std::f32::NAN;

/// Everything a decoded image must say.
#[derive(Clone, Debug)]
pub struct Exp {
    pub make: String, pub model: String, pub clean_make: String, pub clean_model: String,
    pub w: usize, pub h: usize, pub cpp: usize, pub data: Vec<u16>,
    pub wb: [f32; 4], pub white: [u16; 4], pub black: [u16; 4], pub matrix: [[f32; 3]; 4], pub pattern: String, pub crops: [usize; 4], pub orient: u16,
}
impl Exp {
    pub fn cam(c: &Cam, w: usize, h: usize, data: Vec<u16>, wb: [f32; 4]) -> Exp {
        let black = if c.areah.1 + c.areav.1 > 0 && data.len() == w * h { masked(c, w, h, &data) } else { c.black };
        Exp { make: c.make.clone(), model: c.model.clone(), clean_make: c.clean_make.clone(), clean_model: c.clean_model.clone(), w, h, cpp: 1, data,
            wb, white: c.white, black, matrix: c.matrix, pattern: c.pattern.clone(), crops: c.crops, orient: 0 }
    }
}
fn masked(c: &Cam, w: usize, h: usize, data: &[u16]) -> [u16; 4] {
    let (mut s, mut n) = ([0u64; 4], [0u64; 4]);
    for r in 0..h { for k in 0..w {
        let m = (r >= c.areah.0 && r < c.areah.0 + c.areah.1) as u64 + (k >= c.areav.0 && k < c.areav.0 + c.areav.1) as u64;
        if m > 0 { let x = c.color(r, k); s[x] += m * data[r * w + k] as u64; n[x] += m; }
    } }
    let mut o = [0; 4];
    for i in 0..4 { if n[i] > 0 { o[i] = (s[i] / n[i]) as u16; } }
    o
}
pub fn feq(a: f32, b: f32) -> bool { (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-5 * b.abs() }

/// size, components and samples
pub fn cmp_data(i: &RawImage, e: &Exp) -> Result<(), String> {
    if (i.width, i.height, i.cpp) != (e.w, e.h, e.cpp) { return Err(format!("size {}x{} cpp {}, expected {}x{} cpp {}", i.width, i.height, i.cpp, e.w, e.h, e.cpp)); }
    if i.data.len() != e.w * e.h * e.cpp { return Err(format!("{} samples in a {}x{} cpp {} image", i.data.len(), e.w, e.h, e.cpp)); }
    if i.data != e.data {
        let p = (0..e.data.len()).find(|&p| i.data[p] != e.data[p]).unwrap();
        let n = (0..e.data.len()).filter(|&p| i.data[p] != e.data[p]).count();
        return Err(format!("sample at row {} column {} component {} is {}, expected {} ({} of {} differ)", p / (e.w * e.cpp), p % (e.w * e.cpp) / e.cpp, p % e.cpp, i.data[p], e.data[p], n, e.data.len()));
    }
    Ok(())
}
/// everything else
pub fn cmp_meta(i: &RawImage, e: &Exp) -> Result<(), String> {
    if (&i.make, &i.model, &i.clean_make, &i.clean_model) != (&e.make, &e.model, &e.clean_make, &e.clean_model) {
        return Err(format!("names {:?} {:?} {:?} {:?}, expected {:?} {:?} {:?} {:?}", i.make, i.model, i.clean_make, i.clean_model, e.make, e.model, e.clean_make, e.clean_model)); }
    if !(0..4).all(|k| feq(i.wb_coeffs[k], e.wb[k])) { return Err(format!("white balance {:?}, expected {:?}", i.wb_coeffs, e.wb)); }
    if i.whitelevels != e.white { return Err(format!("white levels {:?}, expected {:?}", i.whitelevels, e.white)); }
    if i.blacklevels != e.black { return Err(format!("black levels {:?}, expected {:?}", i.blacklevels, e.black)); }
    if i.crops != e.crops { return Err(format!("crops {:?}, expected {:?}", i.crops, e.crops)); }
    for r in 0..4 { for c in 0..3 { if !feq(i.xyz_to_cam[r][c], e.matrix[r][c]) { return Err(format!("matrix {:?}, expected {:?}", i.xyz_to_cam, e.matrix)); } } }
    let (pw, ph) = pat_size(&e.pattern);
    if (i.cfa.width, i.cfa.height) != (pw, ph) { return Err(format!("pattern {:?}, expected {:?}", i.cfa.name, e.pattern)); }
    if pw > 0 { for r in 0..ph * 2 { for c in 0..pw * 2 { if i.cfa.color_at(r, c) != pat_color(&e.pattern, r, c) { return Err(format!("pattern {:?} differs at {},{} from {:?}", i.cfa.name, r, c, e.pattern)); } } } }
    let o = rawloader::decoders::Orientation::from_u16(e.orient);
    if i.orientation != o { return Err(format!("orientation {:?}, expected {:?}", i.orientation, o)); }
    Ok(())
}
pub fn cmp_all(i: &RawImage, e: &Exp) -> Result<(), String> { cmp_data(i, e)?; cmp_meta(i, e) }

#[derive(Clone)]
pub enum Doc { T(Tiff, Layout), Raf(Raf), B(Vec<u8>) }
#[derive(Clone)]
pub struct Raf { pub t1: Tiff, pub l1: Layout, pub t2: Option<(Tiff, Layout)>, pub fuji: Vec<(u16, Vec<u8>)>, pub data: Vec<u8>, pub pad: usize }
impl Doc {
    pub fn bytes(&self) -> Vec<u8> { self.build(None).0 }
    pub fn fields(&self) -> (Vec<u8>, Vec<Field>) { self.build(None) }
    /// with a layout override (byte order included) where the format has a TIFF container
    pub fn build(&self, lay: Option<&Layout>) -> (Vec<u8>, Vec<Field>) {
        match self {
            Doc::B(b) => (b.clone(), vec![]),
            Doc::T(t, l) => t.build_at(&[], lay.unwrap_or(l)),
            Doc::Raf(r) => r.build(lay),
        }
    }
    pub fn tiff(&mut self) -> &mut Tiff { match self { Doc::T(t, _) => t, Doc::Raf(r) => &mut r.t1, _ => panic!("no TIFF container") } }
}
impl Raf {
    fn build(&self, lay: Option<&Layout>) -> (Vec<u8>, Vec<Field>) {
        let mut o = b"FUJIFILMCCD-RAW 0201FF383501".to_vec();
        o.resize(160, 0);
        for _ in 0..self.pad { o.push(0x77); }
        let jp = o.len();
        o.extend_from_slice(b"\xff\xd8\xff\xe1\x00\x10Exif\0\0");
        let (mut o, mut f) = self.t1.build_at(&o, lay.unwrap_or(&self.l1));
        while o.len() % 4 != 0 { o.push(0); }
        let fp = o.len();
        let mut fuji = self.fuji.clone();
        match lay.map_or(0, |l| l.unknown) { 1 => fuji.insert(0, (0xfb01, vec![1; 4])), 2 => fuji.push((0xfb02, vec![])), 3 => { fuji.insert(0, (0xfb03, vec![3; 41])); fuji.push((0xfb04, vec![4; 300])); } _ => {} }
        if lay.map_or(false, |l| l.order == 1) { fuji.reverse(); }
        o.extend_from_slice(&(fuji.len() as u32).to_be_bytes());
        for (t, v) in fuji.iter() { o.extend_from_slice(&t.to_be_bytes()); o.extend_from_slice(&(v.len() as u16).to_be_bytes()); o.extend_from_slice(v); }
        o.extend(crate::bits::slack(16));
        let dp;
        match self.t2 {
            Some((ref t, ref l)) => { dp = o.len(); let (o2, f2) = t.build_at(&o, lay.unwrap_or(l)); o = o2; f.extend(f2); }
            None => { dp = o.len(); o.extend_from_slice(&self.data); }
        }
        for (at, v) in [(84, jp), (92, fp), (100, dp)] { o[at..at + 4].copy_from_slice(&(v as u32).to_be_bytes()); f.push(Field { pos: at, len: 4, big: true, what: format!("RAF pointer {}", at) }); }
        (o, f)
    }
}

// ---------------------------------------------------------------- sample packers
pub fn w16(big: bool, s: &[u16]) -> Vec<u8> { s.iter().flat_map(|v| if big { v.to_be_bytes() } else { v.to_le_bytes() }).collect() }
pub fn p12be(s: &[u16]) -> Vec<u8> { let mut b = Bits::new(); for &v in s { b.put(v as u32, 12); } b.bytes() }
pub fn p12le(s: &[u16]) -> Vec<u8> { let mut b = LsbBits::new(); for &v in s { b.put(v as u32, 12); } b.bytes() }
pub fn p10be(s: &[u16]) -> Vec<u8> { let mut b = Bits::new(); for &v in s { b.put(v as u32, 10); } b.bytes() }
pub fn p12_words16(s: &[u16]) -> Vec<u8> { let mut b = Bits::new(); for &v in s { b.put(v as u32, 12); } b.words16le() }
pub fn p10_words16(s: &[u16]) -> Vec<u8> { let mut b = Bits::new(); for &v in s { b.put(v as u32, 10); } b.words16le() }
pub fn p12_words32(s: &[u16]) -> Vec<u8> { let mut b = Bits::new(); for &v in s { b.put(v as u32, 12); } b.msb32() }
/// ten samples in fifteen bytes, then one control byte; the last group's control byte is there when it holds at least 8 samples
pub fn p12_control(w: usize, s: &[u16], be: bool, ctl: u8) -> Vec<u8> {
    let mut o = Vec::new();
    for row in s.chunks(w) {
        for g in row.chunks(10) { o.extend(if be { p12be(g) } else { p12le(g) }); if g.len() >= 8 { o.push(ctl); } }
    }
    o
}
/// even rows first, then the odd ones at `align` (0: directly after)
pub fn p12_fields(w: usize, h: usize, s: &[u16], align: usize) -> Vec<u8> {
    let half = (h + 1) / 2;
    let mut a = Vec::new(); let mut b = Vec::new();
    for r in 0..h { let row = p12be(&s[r * w..(r + 1) * w]); if r % 2 == 0 { a.extend(row) } else { b.extend(row) } }
    assert!(a.len() == half * w * 3 / 2);
    if align > 0 { let to = (a.len() / align + 1) * align; a.resize(to, 0xaa); }
    a.extend(b);
    a
}
/// rows of 12-bit samples, each row starting at an even byte
pub fn p12_rows16(w: usize, s: &[u16]) -> Vec<u8> {
    let mut o = Vec::new();
    for row in s.chunks(w) { let mut b = p12be(row); if b.len() % 2 == 1 { b.push(0x55); } o.extend(b); }
    o
}

// ---------------------------------------------------------------- dithered curve lookup
pub struct Curve { pub t: Vec<u16> }
impl Curve {
    pub fn get(&self, v: usize, rnd: &mut u32) -> u16 {
        let c = self.t[v] as i64;
        let lo = if v > 0 { self.t[v - 1] as i64 } else { c };
        let hi = if v + 1 < self.t.len() { self.t[v + 1] as i64 } else { c };
        let delta = (hi - lo).max(0);
        let base = if c == 0 { 0 } else { (c - (delta + 2) / 4).max(0) };
        let p = base + ((delta * (*rnd & 2047) as i64 + 1024) >> 12);
        *rnd = 15700 * (*rnd & 65535) + (*rnd >> 16);
        p.min(65535) as u16
    }
}
pub fn curve8(w: usize, bytes: &[u8], t: &[u16]) -> Vec<u16> {
    let c = Curve { t: t.to_vec() };
    let mut o = Vec::new();
    for (r, row) in bytes.chunks(w).enumerate() {
        let at = |i: usize| *bytes.get(r * w + i).unwrap_or(&0) as u32;
        let mut rnd = at(0) | at(1) << 8 | at(2) << 16 | at(3) << 24;
        for &b in row { o.push(c.get(b as usize, &mut rnd)); }
    }
    o
}

// ---------------------------------------------------------------- containers
pub fn le() -> Layout { Layout::std(false) }
pub fn be() -> Layout { Layout::std(true) }
pub fn lay(big: bool) -> Layout { Layout::std(big) }
/// make, model and an orientation in the first directory
pub fn names(make: &str, model: &str, orient: u16) -> Ifd { let i = Ifd::new().a(0x10f, make).a(0x110, model); if orient > 0 { i.s(0x112, orient) } else { i } }
/// the raw directory: size, compression, bits, strip
pub fn strip(i: Ifd, w: usize, h: usize, comp: u32, bps: u16, blob: usize, count: usize) -> Ifd {
    let i = i.l(0x100, w as u32).l(0x101, h as u32).s(0x102, bps);
    let i = if comp < 65536 { i.s(0x103, comp as u16) } else { i.l(0x103, comp) };
    i.t(0x111, V::Off(vec![(blob, 0)])).l(0x117, count as u32)
}

pub fn ari(w: usize, h: usize, payload: &[u8], wb: [f32; 3], model: &str) -> Doc {
    let mut o = vec![0u8; 1024];
    o[0..4].copy_from_slice(b"ARRI");
    o[8..12].copy_from_slice(&1024u32.to_le_bytes());
    o[20..24].copy_from_slice(&(w as u32).to_le_bytes());
    o[24..28].copy_from_slice(&(h as u32).to_le_bytes());
    for i in 0..3 { o[100 + 4 * i..104 + 4 * i].copy_from_slice(&wb[i].to_le_bytes()); }
    o[668..668 + model.len()].copy_from_slice(model.as_bytes());
    o.extend_from_slice(payload);
    Doc::B(o)
}
pub fn mrw(make: &str, model: &str, w: usize, h: usize, packed: bool, payload: &[u8], wb: [u16; 4], orient: u16, order: u8) -> Doc {
    let t = Tiff::new(vec![names(make, model, orient)]).build(&be());
    let mut prd = b"27730001".to_vec();
    prd.extend((h as u16).to_be_bytes()); prd.extend((w as u16).to_be_bytes()); // sensor size
    prd.extend((h as u16 / 2).to_be_bytes()); prd.extend((w as u16 / 2).to_be_bytes());
    prd.push(if packed { 12 } else { 16 }); prd.extend([12, 0x59, 0, 0, 0, 0, 0]);
    let mut wbg = vec![2u8, 2, 2, 2];
    for v in wb { wbg.extend(v.to_be_bytes()); }
    if order < 10 && !crate::bits::tight() { wbg.extend([0; 8]); }
    let mut blocks: Vec<(&[u8], Vec<u8>)> = vec![(b"\0PRD", prd), (b"\0TTW", t), (b"\0WBG", wbg), (b"\0RIF", vec![0; 40])];
    match order { 1 => blocks.rotate_left(1), 2 => blocks.swap(0, 2), 3 => { blocks.insert(0, (b"\0XYZ", vec![7; 21])); }
        // the blocks one more than necessary long no more: each of their 24 orders, with a filler of some length at one place
        o if o >= 10 => { let mut k = (o - 10) as usize % 24; let mut from = std::mem::take(&mut blocks); for n in (1..=4).rev() { blocks.push(from.remove(k % n)); k /= n; } }
        _ => {} }
    if order >= 34 { let k = (order as usize - 34) / 24 + 1; blocks.insert(k % 5, (b"\0PAD", vec![0; [0, 1, 4, 11, 12, 21][k % 6]])); }
    let mut b = Vec::new();
    for (t, v) in blocks { b.extend_from_slice(t); b.extend((v.len() as u32).to_be_bytes()); b.extend(v); }
    let mut o = b"\0MRM".to_vec();
    o.extend((b.len() as u32).to_be_bytes());
    o.extend(b);
    o.extend_from_slice(payload);
    Doc::B(o)
}
/// the cipher used for Sony private data and SRF
pub fn sony_crypt(data: &[u8], key: u32) -> Vec<u8> {
    let mut pad = [0u32; 128];
    let mut k = key;
    for p in 0..4 { k = k.wrapping_mul(48828125).wrapping_add(1); pad[p] = k; }
    pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
    for p in 4..127 { pad[p] = (pad[p - 4] ^ pad[p - 2]) << 1 | (pad[p - 3] ^ pad[p - 1]) >> 31; }
    // each pad word is used as four big-endian bytes
    let mut w: Vec<[u8; 4]> = (0..127).map(|p| pad[p].to_be_bytes()).collect();
    w.push([0; 4]);
    let mut o = Vec::new();
    for (i, c) in data.chunks(4).enumerate() {
        let p = i + 127;
        let mut x = [0u8; 4];
        for j in 0..4 { x[j] = w[(p + 1) & 127][j] ^ w[(p + 65) & 127][j]; }
        w[p & 127] = x;
        for j in 0..c.len() { o.push(c[j] ^ x[j]); }
    }
    o
}
/// Sony's private area: (private directory, encrypted block) as two blobs whose addresses are patched in later
pub fn sony_private(t: &mut Tiff, rggb: bool, lv: [u16; 4], key: u32) -> usize {
    let pb = t.blob(vec![0; 2 + 3 * 12 + 4]);
    let eb = t.blob(vec![0; 128]);
    t.late.push(Rc::new(move |o: &mut Vec<u8>, pos: &[usize]| {
        let so = pos[eb] as u32;
        let mut d = 3u16.to_le_bytes().to_vec();
        for (tag, v) in [(0x7200u16, so), (0x7201, 128), (0x7221, key)] { d.extend(tag.to_le_bytes()); d.extend(4u16.to_le_bytes()); d.extend(1u32.to_le_bytes()); d.extend(v.to_le_bytes()); }
        d.extend([0; 4]);
        o[pos[pb]..pos[pb] + d.len()].copy_from_slice(&d);
        let mut e = 1u16.to_le_bytes().to_vec();
        e.extend((if rggb { 0x7313u16 } else { 0x7303 }).to_le_bytes()); e.extend(3u16.to_le_bytes()); e.extend(4u32.to_le_bytes()); e.extend((so + 40).to_le_bytes());
        e.extend([0; 4]);
        e.resize(40, 0);
        for v in lv { e.extend(v.to_le_bytes()); }
        e.resize(128, 0);
        let c = sony_crypt(&e, key);
        o[pos[eb]..pos[eb] + 128].copy_from_slice(&c);
    }));
    pb
}
pub fn sony_wb(rggb: bool, lv: [u16; 4]) -> [f32; 4] { if rggb { [lv[0] as f32, lv[1] as f32, lv[3] as f32, NAN] } else { [lv[1] as f32, lv[0] as f32, lv[2] as f32, NAN] } }
pub struct ArwP { pub model: &'static str, pub w: usize, pub h: usize, pub comp: u32, pub bps: u16, pub count: usize, pub curve: Option<[u16; 4]>, pub rggb: bool, pub lv: [u16; 4], pub key: u32, pub orient: u16 }
pub fn arw(p: &ArwP, payload: Vec<u8>) -> Doc {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(payload);
    let pb = sony_private(&mut t, p.rggb, p.lv, p.key);
    let mut raw = strip(Ifd::new(), p.w, p.h, p.comp, p.bps, b, p.count);
    if let Some(c) = p.curve { raw.put(0x7010, V::S(c.to_vec())); }
    t.ifds.push(names("SONY", p.model, p.orient).t(0x14a, V::Ifds(vec![raw])).t(0xc634, V::OffU(pb, 0)));
    Doc::T(t, le())
}
/// SRF: everything at fixed places, doubly encrypted
pub fn srf(w: usize, h: usize, s: &[u16], key1: u32, key2: u32, sel: u8) -> Doc {
    let mut t = Tiff::new(vec![names("SONY", "DSC-F828", 0).l(0x100, w as u32).l(0x101, h as u32)]).build(&le());
    t.resize(862144, 0);
    t[200896] = sel;
    let at = 200896 + sel as usize * 4;
    if sel > 0 { t[at..at + 4].copy_from_slice(&key1.to_be_bytes()); }
    let key1 = u32::from_be_bytes([t[at], t[at + 1], t[at + 2], t[at + 3]]);
    let mut head = vec![0x11u8; 44];
    head[22..26].copy_from_slice(&key2.to_le_bytes());
    let e = sony_crypt(&head, key1);
    t[164600..164644].copy_from_slice(&e);
    let mut d = w16(true, s);
    d.extend(crate::bits::slack(8));
    t.extend(sony_crypt(&d, key2));
    Doc::B(t)
}
pub fn dcs(model: &str, w: usize, h: usize, payload: Vec<u8>, table: &[u16], big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    let th = t.blob(vec![9; 64]);
    t.ifds.push(strip(names("KODAK", model, 0), 8, 8, 1, 8, th, 64).t(0x123, V::S(table.to_vec())).t(0x14a, V::Ifds(vec![strip(Ifd::new(), w, h, 1, 8, b, n)])));
    Doc::T(t, lay(big))
}
pub fn erf(w: usize, h: usize, payload: Vec<u8>, r: u16, bl: u16, orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    let mut lv = vec![0u8; 256];
    lv[48..50].copy_from_slice(&r.to_be_bytes()); lv[50..52].copy_from_slice(&bl.to_be_bytes());
    let mk = Maker { prefix: b"EPSON\0\x01\0".to_vec(), big: None, ifd: Ifd::new().t(0xe80, V::U(lv)), rel: None };
    t.ifds.push(names("SEIKO EPSON CORP.", "R-D1", orient).t(0x14a, V::Ifds(vec![strip(Ifd::new(), w, h, 1, 12, b, n).t(0x828e, V::B(vec![0, 1, 1, 2]))]))
        .t(0x8769, V::Ifds(vec![Ifd::new().t(0x927c, V::Maker(Box::new(mk)))])));
    Doc::T(t, lay(big))
}
pub enum KdcWb { F(u32, u32, u32), R([(u32, u32); 3]), Old(usize, u16, u16) }
/// width and height are the full ones (at least 80 x 70); `hack`: the declared position of cameras whose data is at a fixed place
pub fn kdc(model: &str, w: usize, h: usize, payload: Vec<u8>, wb: KdcWb, hack: Option<u32>, orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(payload);
    let mut v = vec![(CONST, 3u32); 13];
    match hack {
        None => { v[4] = (b, 0); v[12] = (CONST, 24); t.blobs[b] = [vec![0xeeu8; 24], t.blobs[b].clone()].concat(); }
        Some(x) => { v[4] = (CONST, x - 24); v[12] = (CONST, 24); t.blob_align.push((b, if x < 0x15000 { 0x15000 } else { 0x17000 })); }
    }
    let mut k = Ifd::new().l(0xfd00, w as u32 - 80).l(0xfd01, h as u32 - 70).t(0xfd04, V::Off(v));
    let mut i = names("EASTMAN KODAK COMPANY", model, orient);
    match wb {
        KdcWb::F(r, g, bl) => k.put(0xfa2a, V::L(vec![r, g, bl])),
        KdcWb::R(x) => k.put(0xfa2a, V::R(x.to_vec())),
        KdcWb::Old(n, r, bl) => { let mut d = vec![0u8; n]; d[148..150].copy_from_slice(&r.to_be_bytes()); d[150..152].copy_from_slice(&bl.to_be_bytes()); i.put(0x8290, V::Ifds(vec![Ifd::new().t(0xf00, V::U(d))])); }
    }
    i.put(0xfe00, V::Ifds(vec![k]));
    t.ifds.push(i);
    Doc::T(t, lay(big))
}
pub fn mef(w: usize, h: usize, payload: Vec<u8>, orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    t.ifds.push(names("Mamiya-OP Co.,Ltd.", "MAMIYA ZD", orient).t(0x14a, V::Ifds(vec![strip(Ifd::new(), w, h, 1, 12, b, n).t(0x828e, V::B(vec![0, 1, 1, 2]))])));
    Doc::T(t, lay(big))
}
pub enum NrwWb { None, R(f32, f32, [(u32, u32); 2]), V100([u32; 4]), Other([u32; 4]), Old(u16, u16) }
fn nikon_maker(ifd: Ifd, big: bool) -> Maker {
    let mut p = b"Nikon\0\x02\x10\0\0".to_vec();
    p.extend_from_slice(if big { b"MM\0\x2a\0\0\0\x08" } else { b"II\x2a\0\x08\0\0\0" });
    Maker { prefix: p, big: Some(big), ifd, rel: Some(10) }
}
pub fn nrw_wb(v: &NrwWb) -> [f32; 4] {
    match *v { NrwWb::None => [NAN; 4], NrwWb::R(r, b, _) => [r, 1.0, b, NAN], NrwWb::V100(x) | NrwWb::Other(x) => [(x[0] * 4) as f32, (x[1] + x[2]) as f32, (x[3] * 4) as f32, NAN], NrwWb::Old(r, b) => [r as f32, 256.0, b as f32, NAN] }
}
pub fn nrw(model: &str, w: usize, h: usize, payload: Vec<u8>, wb: &NrwWb, orient: u16, big: bool, mbig: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    let le4 = |d: &mut Vec<u8>, at: usize, x: &[u32; 4]| for i in 0..4 { d[at + 4 * i..at + 4 * i + 4].copy_from_slice(&x[i].to_le_bytes()); };
    let mut m = Ifd::new().t(1, V::U(b"0210".to_vec()));
    match *wb {
        NrwWb::None => {}
        NrwWb::R(_, _, ref x) => m.put(0x0c, V::R(x.to_vec())),
        NrwWb::V100(ref x) => { let mut d = vec![0; 2000]; d[0..8].copy_from_slice(b"NRW 0100"); le4(&mut d, 1556, x); m.put(0x14, V::U(d)); }
        NrwWb::Other(ref x) => { let mut d = vec![0; 200]; d[0..8].copy_from_slice(b"NRW 0200"); le4(&mut d, 56, x); m.put(0x14, V::U(d)); }
        NrwWb::Old(r, bl) => { let mut d = vec![0; 1300]; d[1248..1250].copy_from_slice(&r.to_be_bytes()); d[1250..1252].copy_from_slice(&bl.to_be_bytes()); m.put(0x14, V::U(d)); }
    }
    let small = Ifd::new().l(0x100, 160).l(0x101, 120).t(0x828e, V::B(vec![2, 2, 2, 2]));
    t.ifds.push(names("NIKON", model, orient).t(0x14a, V::Ifds(vec![small, strip(Ifd::new(), w, h, 1, 12, b, n).t(0x828e, V::B(vec![0, 1, 1, 2]))]))
        .t(0x8769, V::Ifds(vec![Ifd::new().t(0x927c, V::Maker(Box::new(nikon_maker(m, mbig))))])));
    Doc::T(t, lay(big))
}
/// modern RAF: a second TIFF holds the raw directory
pub fn raf_new(model: &str, w: usize, h: usize, bps: Option<u16>, payload: Vec<u8>, wb: [u32; 3], orient: u16, big: bool) -> Doc {
    let t1 = Tiff::new(vec![names("FUJIFILM", model, orient)]);
    let mut t2 = Tiff::new(vec![]);
    let n = payload.len() as u32;
    let b = t2.blob(payload);
    let mut r = Ifd::new().l(0xf001, w as u32).l(0xf002, h as u32);
    if let Some(x) = bps { r.put(0xf003, V::L(vec![x as u32])); }
    r.put(0xf007, V::Off(vec![(b, 0)])); r.put(0xf008, V::L(vec![n]));
    r.put(0xf00e, V::L(wb.to_vec()));
    t2.ifds.push(Ifd::new().t(0xf000, V::Ifds(vec![r])));
    Doc::Raf(Raf { t1, l1: lay(big), t2: Some((t2, lay(big))), fuji: vec![(0x100, vec![0, 1, 0, 1])], data: vec![], pad: 0 })
}
/// old RAF: size and white balance in Fuji's own directory, data at the header's pointer
pub fn raf_old(model: &str, w: usize, h: usize, payload: Vec<u8>, wb: [u16; 4], orient: u16, big: bool) -> Doc {
    let t1 = Tiff::new(vec![names("FUJIFILM", model, orient)]);
    let be2 = |a: u16, b: u16| [a.to_be_bytes(), b.to_be_bytes()].concat();
    Doc::Raf(Raf { t1, l1: lay(big), t2: None, fuji: vec![(0x130, vec![1, 2, 3]), (0x100, be2(h as u16, w as u16)), (0x2ff0, wb.iter().flat_map(|v| v.to_be_bytes()).collect())], data: payload, pad: 0 })
}
pub enum OrfWb { Mul(u16, u16), Img2(u16, u16), Img4([u16; 4]) }
pub fn orf_wb(w: &OrfWb) -> [f32; 4] { match *w { OrfWb::Mul(r, b) | OrfWb::Img2(r, b) => [r as f32, 256.0, b as f32, NAN], OrfWb::Img4(x) => [x[0] as f32, 256.0, x[1] as f32, NAN] } }
pub fn orf(make: &str, model: &str, w: usize, h: usize, counts: Vec<u32>, payload: Vec<u8>, wb: OrfWb, orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(payload);
    let mk = match wb {
        OrfWb::Mul(r, bl) => Maker { prefix: b"OLYMP\0\x01\0".to_vec(), big: None, ifd: Ifd::new().t(0x1017, V::S(vec![r, 1])).t(0x1018, V::S(vec![bl, 1])), rel: None },
        OrfWb::Img2(r, bl) => Maker { prefix: b"OLYMPUS\0II\x03\0".to_vec(), big: None, ifd: Ifd::new().t(0x2040, V::Ifds(vec![Ifd::new().t(0x100, V::S(vec![r, bl]))])), rel: Some(0) },
        OrfWb::Img4(x) => Maker { prefix: b"OLYMPUS\0II\x03\0".to_vec(), big: None, ifd: Ifd::new().t(0x2040, V::Ifds(vec![Ifd::new().t(0x100, V::S(x.to_vec()))])), rel: Some(0) },
    };
    let mut i = names(make, model, orient).l(0x100, w as u32).l(0x101, h as u32).s(0x102, 16).s(0x103, 1);
    i.put(0x111, V::Off(counts.iter().scan(0, |a, &c| { let x = *a; *a += c; Some((b, x)) }).collect()));
    i.put(0x117, V::L(counts));
    t.ifds.push(i.t(0x8769, V::Ifds(vec![Ifd::new().t(0x927c, V::Maker(Box::new(mk)))])));
    Doc::T(t, lay(big))
}
pub enum PanaWb { Rb(u16, u16), Rgb(u16, u16, u16) }
pub fn pana_wb(w: &PanaWb) -> [f32; 4] { match *w { PanaWb::Rb(r, b) => [r as f32, 256.0, b as f32, NAN], PanaWb::Rgb(r, g, b) => [r as f32, g as f32, b as f32, NAN] } }
/// `split`: the data pointer is Panasonic's own tag (packed blocks in split order), else the strip offset
pub fn rw2(make: &str, model: &str, w: usize, h: usize, split: bool, payload: Vec<u8>, wb: PanaWb, orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(payload);
    let mut i = names(make, model, orient).s(0x2, w as u16).s(0x3, h as u16);
    match wb { PanaWb::Rb(r, bl) => { i.put(0x11, V::S(vec![r])); i.put(0x12, V::S(vec![bl])); } PanaWb::Rgb(r, g, bl) => { i.put(0x24, V::S(vec![r])); i.put(0x25, V::S(vec![g])); i.put(0x26, V::S(vec![bl])); } }
    i.put(if split { 0x118 } else { 0x111 }, V::Off(vec![(b, 0)]));
    t.ifds.push(i);
    Doc::T(t, lay(big))
}
pub fn pana_mode(w: usize, h: usize) -> &'static str { let r = w * 100 / h; if r < 125 { "1:1" } else if r < 145 { "4:3" } else if r < 165 { "3:2" } else { "16:9" } }
/// Samsung; `areas`: a line offset table for the block-coded format
pub fn srw(model: &str, w: usize, h: usize, comp: u32, bps: u16, payload: Vec<u8>, areas: Option<Vec<u8>>, lv: [u32; 4], bl: [u32; 4], orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    let mut raw = strip(Ifd::new(), w, h, comp, bps, b, n);
    if let Some(a) = areas { let ab = t.blob(a); raw.put(0xa010, V::Off(vec![(ab, 0)])); }
    let mk = Maker { prefix: vec![], big: None, ifd: Ifd::new().t(0xa021, V::L(lv.to_vec())).t(0xa028, V::L(bl.to_vec())), rel: Some(0) };
    t.ifds.push(names("SAMSUNG", model, orient).t(0x14a, V::Ifds(vec![raw])).t(0x8769, V::Ifds(vec![Ifd::new().t(0x927c, V::Maker(Box::new(mk)))])));
    Doc::T(t, lay(big))
}
pub fn srw_wb(lv: [u32; 4], bl: [u32; 4]) -> [f32; 4] { [lv[0] as f32 - bl[0] as f32, lv[1] as f32 - bl[1] as f32, lv[3] as f32 - bl[3] as f32, NAN] }
/// style 0: values relative to the file ("AOC"), 1: relative to the makernote ("PENTAX", own byte order)
pub fn pef(make: &str, model: &str, w: usize, h: usize, comp: u32, bps: u16, payload: Vec<u8>, wb: [u16; 4], black: Option<[u16; 4]>, huff: Option<Vec<u8>>, style: u8, orient: u16, big: bool, mbig: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    let mut m = Ifd::new().t(0x201, V::S(wb.to_vec()));
    if let Some(x) = black { m.put(0x200, V::S(x.to_vec())); }
    if let Some(x) = huff { m.put(0x220, V::U(x)); }
    let mk = if style == 0 { Maker { prefix: b"AOC\0".iter().cloned().chain(if mbig { b"MM".iter().cloned() } else { b"II".iter().cloned() }).collect(), big: Some(mbig), ifd: m, rel: None } }
        else { Maker { prefix: b"PENTAX \0".iter().cloned().chain(if mbig { b"MM".iter().cloned() } else { b"II".iter().cloned() }).collect(), big: Some(mbig), ifd: m, rel: Some(0) } };
    t.ifds.push(strip(names(make, model, orient), w, h, comp, bps, b, n).t(0x8769, V::Ifds(vec![Ifd::new().t(0x927c, V::Maker(Box::new(mk)))])));
    Doc::T(t, lay(big))
}
/// Leaf: names in XMP, white balance as text in a metadata block
pub fn mos(make: &str, model: &str, w: usize, h: usize, comp: u16, payload: Vec<u8>, neutrals: Option<[u32; 4]>, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(payload);
    let xmp = format!("<?xpacket?><x:xmpmeta><tiff:Make>{}</tiff:Make><tiff:Model>{}(LF1234 )/Hasselblad</tiff:Model></x:xmpmeta>", make, model);
    let mut meta = b"PKTS\0\0\0\0junkNeutObj_name\0\0\0\0".to_vec();
    if let Some(n) = neutrals {
        meta.extend_from_slice(b"PKTS\0\0\0\x01NeutObj_neutrals");
        meta.resize(meta.len() + 28, 0);
        meta.extend(n.iter().map(|v| v.to_string()).collect::<Vec<_>>().join("\n").bytes());
    }
    meta.resize(meta.len() + if crate::bits::tight() { 1 } else { 60 }, 0);
    let i = Ifd::new().l(0x100, w as u32).l(0x101, h as u32).s(0x102, 16).s(0x103, comp).a(0x131, "Camera Library").l(0x142, w as u32).l(0x143, h as u32).t(0x144, V::Off(vec![(b, 0)])).t(0x2bc, V::A(xmp)).t(0x8606, V::U(meta));
    t.ifds.push(i);
    Doc::T(t, lay(big))
}
pub fn mos_wb(n: Option<[u32; 4]>) -> [f32; 4] { match n { Some(n) => [n[0] as f32 / n[1] as f32, n[0] as f32 / n[2] as f32, n[0] as f32 / n[3] as f32, NAN], None => [NAN; 4] } }
pub enum NefWb { Plain([(u32, u32); 2]), V100([u16; 3]), V103([u16; 3]), Enc { v: u16, rgb: [u16; 3], serial: &'static str, key: [u8; 4] } }
pub fn nef_wb(w: &NefWb) -> [f32; 4] {
    match *w { NefWb::Plain(x) => [x[0].0 as f32 / x[0].1 as f32, 1.0, x[1].0 as f32 / x[1].1 as f32, NAN], NefWb::V100(x) | NefWb::V103(x) => [x[0] as f32, x[1] as f32, x[2] as f32, NAN], NefWb::Enc { rgb: x, .. } => [x[0] as f32, x[1] as f32, x[2] as f32, NAN] }
}
pub fn nef(model: &str, w: usize, h: usize, comp: u32, bps: u16, count: usize, payload: Vec<u8>, meta: Option<(bool, Vec<u8>)>, wb: &NefWb, orient: u16, big: bool, mbig: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(payload);
    let mut m = Ifd::new().t(1, V::U(b"0210".to_vec()));
    let put = |d: &mut Vec<u8>, i: usize, v: u16| d[2 * i..2 * i + 2].copy_from_slice(&if mbig { v.to_be_bytes() } else { v.to_le_bytes() });
    match *wb {
        NefWb::Plain(x) => m.put(0xc, V::R(x.to_vec())),
        NefWb::V100(x) => { let mut d = vec![0u8; 100]; d[0..4].copy_from_slice(b"0100"); put(&mut d, 36, x[0]); put(&mut d, 38, x[1]); put(&mut d, 37, x[2]); m.put(0x97, V::U(d)); }
        NefWb::V103(x) => { let mut d = vec![0u8; 100]; d[0..4].copy_from_slice(b"0103"); put(&mut d, 10, x[0]); put(&mut d, 11, x[1]); put(&mut d, 12, x[2]); m.put(0x97, V::U(d)); }
        NefWb::Enc { v, rgb, serial, key } => {
            let mut p = vec![0u8; 280];
            let o = if v == 204 { 6 } else { 14 };
            for (i, at) in [(0, o), (1, o + 2), (2, o + 6)] { p[at..at + 2].copy_from_slice(&rgb[i].to_be_bytes()); }
            let sn = serial.bytes().fold(0usize, |a, c| (a * 10 + if c.is_ascii_digit() { (c - 48) as usize } else { (c % 10) as usize }) & 0xffffff);
            let kn = key.iter().fold(0u8, |a, b| a ^ b);
            let (ci, mut cj, mut ck) = (crate::nikon::SERIAL[sn & 0xff] as u32, crate::nikon::KEY[kn as usize] as u32, 0x60u32);
            for x in p.iter_mut() { cj = cj.wrapping_add(ci * ck); ck += 1; *x ^= cj as u8; }
            let mut d = format!("0{}", v).into_bytes();
            if v == 204 { d.resize(284, 0); }
            d.extend(p);
            m.put(0x97, V::U(d)); m.put(0x1d, V::A(serial.into())); m.put(0xa7, V::U(key.to_vec()));
        }
    }
    if let Some((two, d)) = meta { if two { m.put(0x8c, V::U(vec![0; 8])); m.put(0x96, V::U(d)); } else { m.put(0x8c, V::U(d)); } }
    let raw = strip(Ifd::new(), w, h, comp, bps, b, count).t(0x828e, V::B(vec![0, 1, 1, 2]));
    t.ifds.push(names("NIKON CORPORATION", model, orient).t(0x14a, V::Ifds(vec![raw])).t(0x8769, V::Ifds(vec![Ifd::new().t(0x927c, V::Maker(Box::new(nikon_maker(m, mbig))))])));
    Doc::T(t, lay(big))
}
// CIFF ------------------------------------------------------------
#[derive(Clone)]
pub enum Cv { D(Vec<u8>), Inline([u8; 8]), Sub(Vec<(u16, Cv)>) }
/// the entries of a CRW file's heap and its sample data
pub fn crw_parts(model: &str, w: usize, h: usize, table: u32, low: Option<&[u8]>, stream: &[u8], wb: &[u16]) -> (Vec<(u16, Cv)>, Vec<u8>) {
    let mut p = Vec::new();
    if let Some(l) = low { p.extend_from_slice(l); }
    p.resize(p.len() + 540 - 26, 0x4d);
    p.extend_from_slice(stream);
    p.extend(crate::bits::slack(8));
    let u16s = |v: &[u16]| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() };
    (vec![ciff_names("Canon", model), (0x1031, Cv::D(u16s(&[34, w as u16, h as u16, 1, 1, 0, 0]))), (0x1835, Cv::D([table, 0, 0, 0].iter().flat_map(|x: &u32| x.to_le_bytes()).collect())), (0x10a9, Cv::D(u16s(wb)))], p)
}
fn ciff_dir(es: &[(u16, Cv)], start: Vec<u8>) -> Vec<u8> {
    let mut o = start;
    let mut ents = Vec::new();
    for (tag, v) in es {
        let mut e = tag.to_le_bytes().to_vec();
        match v {
            Cv::Inline(b) => e.extend_from_slice(b),
            Cv::D(_) | Cv::Sub(_) => {
                let d = match v { Cv::D(d) => d.clone(), Cv::Sub(s) => ciff_dir(s, vec![]), _ => unreachable!() };
                e.extend((d.len() as u32).to_le_bytes()); e.extend((o.len() as u32).to_le_bytes());
                o.extend(d);
            }
        }
        ents.push(e);
    }
    let vs = o.len() as u32;
    o.extend((es.len() as u16).to_le_bytes());
    for e in ents { o.extend(e); }
    o.extend(vs.to_le_bytes());
    o
}
/// a CIFF file with `payload` directly after the 26-byte header
pub fn ciff(es: &[(u16, Cv)], payload: &[u8]) -> Doc {
    let mut o = b"II".to_vec();
    o.extend(26u32.to_le_bytes());
    o.extend_from_slice(b"HEAPCCDR");
    o.extend([2, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    o.extend(ciff_dir(es, payload.to_vec()));
    Doc::B(o)
}
pub fn ciff_names(make: &str, model: &str) -> (u16, Cv) { (0x080a, Cv::D(format!("{}\0{}\0", make, model).into_bytes())) }
/// plain DNG directory (little- or big-endian), ready for editing
pub fn dng(w: usize, h: usize, cpp: u16, bps: u16, payload: Vec<u8>, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    let i = strip(Ifd::new().l(0xfe, 0), w, h, 1, bps, b, n).s(0x106, if cpp == 1 { 32803 } else { 34892 }).s(0x115, cpp).t(0x828e, V::B(vec![0, 1, 1, 2])).t(0xc61d, V::L(vec![4000]));
    t.ifds.push(names("TestMake", "TestModel", 0).t(0xc612, V::B(vec![1, 4, 0, 0])).t(0x14a, V::Ifds(vec![i])));
    Doc::T(t, lay(big))
}
/// the raw directory of `dng`
pub fn dng_raw(d: &mut Doc) -> &mut Ifd {
    let i = &mut d.tiff().ifds[0];
    for e in i.e.iter_mut() { if e.0 == 0x14a { if let V::Ifds(ref mut v) = e.1 { return &mut v[0]; } } }
    panic!("no sub-directory")
}
pub fn dng_exp(w: usize, h: usize, cpp: usize, data: Vec<u16>) -> Exp {
    Exp { make: "TestMake".into(), model: "TestModel".into(), clean_make: "TestMake".into(), clean_model: "TestModel".into(), w, h, cpp, data, wb: [NAN; 4], white: [4000; 4], black: [0; 4],
        matrix: [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227], [0.0; 3]], pattern: if cpp == 1 { "RGGB".into() } else { "".into() }, crops: [0; 4], orient: 0 }
}
pub enum Cr2Wb { None, Color(Vec<u16>), Power(Vec<u32>), Old([(u32, u32); 3]) }
/// how the raw directory is recognised
#[derive(Clone, Copy, PartialEq)]
pub enum Cr2Kind { Id, Cfa, Old }
pub fn cr2(make: &str, model: &str, kind: Cr2Kind, payload: Vec<u8>, dims: Option<(usize, usize)>, stripes: Option<[u16; 3]>, wb: &Cr2Wb, lin: Option<&[u16]>, orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(payload);
    let thumb = t.blob(vec![0x21; 64]);
    let mut m = Ifd::new().t(6, V::A("Canon maker note".into()));
    match *wb { Cr2Wb::None => {} Cr2Wb::Color(ref v) => m.put(0x4001, V::S(v.clone())), Cr2Wb::Power(ref v) => m.put(0x29, V::U(v.iter().flat_map(|x| if big { x.to_be_bytes() } else { x.to_le_bytes() }).collect())), Cr2Wb::Old(v) => m.put(0xa4, V::R(v.to_vec())) }
    let mk = Maker { prefix: vec![], big: None, ifd: m, rel: None };
    let mut i = names(make, model, orient);
    if kind != Cr2Kind::Old { i = i.t(0x111, V::Off(vec![(thumb, 0)])).l(0x117, 64); }
    if let Some(x) = lin { i.put(0x123, V::S(x.to_vec())); }
    i.put(0x8769, V::Ifds(vec![Ifd::new().t(0x927c, V::Maker(Box::new(mk)))]));
    let mut raw = Ifd::new();
    if let Some((w, h)) = dims { raw.put(0x100, V::L(vec![w as u32])); raw.put(0x101, V::L(vec![h as u32])); }
    raw.put(0x103, V::S(vec![6]));
    raw.put(0x111, V::Off(vec![(b, 0)]));
    match kind { Cr2Kind::Id => raw.put(0xc5d8, V::L(vec![1])), Cr2Kind::Cfa => raw.put(0x828e, V::B(vec![0, 1, 1, 2])), Cr2Kind::Old => {} }
    if let Some(s) = stripes { raw.put(0xc640, V::S(s.to_vec())); }
    if kind == Cr2Kind::Old { i.put(0x81, V::Off(vec![(b, 0)])); for e in raw.e { if e.0 == 0xc640 { i.put(e.0, e.1); } } t.ifds.push(i); }
    else { t.ifds.push(i); t.ifds.push(Ifd::new().t(0x111, V::Off(vec![(thumb, 0)]))); t.ifds.push(raw); }
    Doc::T(t, lay(big))
}
/// RGB of a Canon sRAW pixel
pub fn sraw_rgb(y: u16, cb: u16, cr: u16, wb: [u16; 4], yoff: i32) -> [u16; 3] {
    let (c1, c2, c3) = ((1024.0 * 1024.0 / wb[0] as f32) as i64, wb[1] as i64, (1024.0 * 1024.0 / wb[3] as f32) as i64);
    let (y, cb, cr) = (y as i64 - yoff as i64, cb as i64 - 16383, cr as i64 - 16383);
    let cl = |v: i64| (v >> 8).max(0).min(65535) as u16;
    [cl(c1 * (y + cr)), cl(c2 * (y + ((-778 * cb - 2048 * cr) >> 12))), cl(c3 * (y + cb))]
}
pub fn tfr(model: &str, w: usize, h: usize, payload: Vec<u8>, neutral: [(u32, u32); 3], orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    let raw = strip(Ifd::new(), w, h, 7, 16, b, n).t(0xc61d, V::L(vec![60000]));
    t.ifds.push(names("Hasselblad", model, orient).t(0x14a, V::Ifds(vec![raw])).t(0xc628, V::R(neutral.to_vec())));
    Doc::T(t, lay(big))
}
/// compressed DNG from one strip
pub fn dng_lj(w: usize, h: usize, cpp: u16, bps: u16, payload: Vec<u8>, big: bool) -> Doc { let mut d = dng(w, h, cpp, bps, payload, big); dng_raw(&mut d).set(0x103, V::S(vec![7])); d }
/// compressed DNG from tiles
pub fn dng_tiles(w: usize, h: usize, cpp: u16, bps: u16, tw: usize, tl: usize, tiles: Vec<Vec<u8>>, big: bool) -> Doc {
    let mut d = dng_lj(w, h, cpp, bps, vec![0x99; 9], big);
    let ids: Vec<(usize, u32)> = tiles.into_iter().map(|x| (d.tiff().blob(x), 0)).collect();
    let r = dng_raw(&mut d);
    r.del(0x111); r.del(0x117);
    r.put(0x142, V::L(vec![tw as u32])); r.put(0x143, V::L(vec![tl as u32])); r.put(0x144, V::Off(ids));
    d
}
pub enum DcrWb { Short(usize), Full([u16; 3]) }
pub fn dcr_wb(w: &DcrWb) -> [f32; 4] { match *w { DcrWb::Short(_) => [NAN; 4], DcrWb::Full(x) => [2048.0 / x[0] as f32, 2048.0 / x[1] as f32, 2048.0 / x[2] as f32, NAN] } }
pub fn dcr(model: &str, w: usize, h: usize, payload: Vec<u8>, curve: &[u16], wb: &DcrWb, orient: u16, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let n = payload.len();
    let b = t.blob(payload);
    let d = match *wb { DcrWb::Short(n) => vec![1u8; n], DcrWb::Full(x) => { let mut d = vec![7u8; 46 + (x[0] as usize + x[1] as usize * 3 + x[2] as usize) % 7 * 13]; for i in 0..3 { d[40 + 2 * i..42 + 2 * i].copy_from_slice(&x[i].to_be_bytes()); } d } };
    let raw = strip(Ifd::new(), w, h, 65000, 12, b, n).t(0x828e, V::B(vec![0, 1, 1, 2]));
    t.ifds.push(names("Kodak", model, orient).t(0x14a, V::Ifds(vec![raw])).t(0x90d, V::S(curve.to_vec())).t(0x3fd, V::U(d)));
    Doc::T(t, lay(big))
}
/// Phase One: `rows` are the coded rows; `order`: how the rows lie in the file (0 in order, 1 reversed, with gaps), `torder` likewise for the private tags
pub fn iiq(model: &str, w: usize, h: usize, rows: Vec<Vec<u8>>, wb: [f32; 3], black: u32, order: u8, torder: u8, orient: u16) -> Doc {
    let mut t = Tiff::new(vec![names("Phase One A/S", model, orient)]);
    t.pre = b"IIIITwaR\0\0\0\0".to_vec();
    let mut data = vec![0x42u8; 12];
    let mut offs = vec![0u32; rows.len()];
    let idx: Vec<usize> = if order == 0 { (0..rows.len()).collect() } else { (0..rows.len()).rev().collect() };
    for i in idx { if order == 1 { data.extend([0xff; 8]); } offs[i] = data.len() as u32; data.extend(&rows[i]); }
    data.extend(crate::bits::slack(16));
    let db = t.blob(data);
    let sb = t.blob(offs.iter().flat_map(|x| x.to_le_bytes()).chain(crate::bits::slack(4)).collect());
    let wbb = t.blob(wb.iter().flat_map(|x| x.to_le_bytes()).chain(crate::bits::slack(4)).collect());
    let nt = 9;
    let tb = t.blob(vec![0; 8 + 16 * nt]);
    t.late.push(Rc::new(move |o: &mut Vec<u8>, pos: &[usize]| {
        let r = |b: usize| (pos[b] - 8) as u32;
        let mut es = vec![(0x100u32, 3u32), (0x107, r(wbb)), (0x108, w as u32), (0x109, h as u32), (0x10e, 3), (0x10f, r(db)), (0x21c, r(sb)), (0x21d, black), (0x258, 77)];
        match torder { 1 => es.reverse(), 2 => es.rotate_left(4), _ => {} }
        let mut d = (es.len() as u32).to_le_bytes().to_vec();
        d.extend(0x99u32.to_le_bytes());
        for (t, v) in es { for x in [t, 4, 4, v] { d.extend(x.to_le_bytes()); } }
        o[pos[tb]..pos[tb] + d.len()].copy_from_slice(&d);
        o[16..20].copy_from_slice(&r(tb).to_le_bytes());
    }));
    Doc::T(t, le())
}
pub enum CrwWb { None, Wb(Vec<u16>), Info2(Vec<u16>), Info1(Vec<u16>) }
/// Canon CRW; `low`: the two low bits of every sample, packed four to a byte
pub fn crw(model: &str, w: usize, h: usize, table: u32, low: Option<&[u8]>, stream: &[u8], wb: &CrwWb, nest: u8) -> Doc {
    let mut p = Vec::new();
    if let Some(l) = low { p.extend_from_slice(l); assert!(l.len() == w * h / 4); }
    p.resize(p.len() + 540 - 26, 0x4d);
    p.extend_from_slice(stream);
    p.extend(crate::bits::slack(8));
    let u16s = |v: &[u16]| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() };
    let mut es = vec![ciff_names("Canon", model), (0x1031, Cv::D(u16s(&[34, w as u16, h as u16, 1, 1, 0, 0]))), (0x1835, Cv::D([table, 0, 0, 0].iter().flat_map(|x: &u32| x.to_le_bytes()).collect()))];
    match wb { CrwWb::None => {} CrwWb::Wb(v) => es.push((0x10a9, Cv::D(u16s(v)))), CrwWb::Info2(v) => es.push((0x102c, Cv::D(u16s(v)))), CrwWb::Info1(v) => es.push((0x0032, Cv::D(u16s(v)))) }
    let es = match nest { 1 => vec![(0x300a, Cv::Sub(vec![(0x2807, Cv::Sub(es))]))], 2 => { let b = es.split_off(1); vec![(0x2807, Cv::Sub(es)), (0x300a, Cv::Sub(b))] } _ => es };
    ciff(&es, &p)
}
/// DSLR-A100: fixed size, the strip is where a directory pointer points
pub fn a100(payload: Vec<u8>, wb: [u16; 4], before: usize, big: bool) -> Doc {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(payload);
    let mut d = vec![0u8; 8];
    for k in 0..before { let n = [24u32, 25, 7, 64, 13][k % 5]; d.extend(b"\0PRD"); d.extend(n.to_le_bytes()); d.extend(vec![0x11; n as usize]); }
    d.extend(b"\0WBG"); d.extend(12u32.to_le_bytes()); d.extend([2, 2, 2, 2]);
    for x in wb { d.extend(x.to_le_bytes()); }
    d.extend(crate::bits::slack(40));
    let p = t.blob(d);
    t.ifds.push(names("SONY", "DSLR-A100", 0).t(0x14a, V::Off(vec![(b, 0)])).t(0xc634, V::OffU(p, 0)));
    Doc::T(t, lay(big))
}
