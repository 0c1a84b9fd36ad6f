//! TIFF-like container writer with explicit layout freedoms.
#[derive(Clone, Debug)]
pub enum V {
    B(Vec<u8>),            // BYTE
    A(String),             // ASCII (NUL appended)
    S(Vec<u16>),           // SHORT
    L(Vec<u32>),           // LONG
    U(Vec<u8>),            // UNDEFINED
    R(Vec<(u32, u32)>),    // RATIONAL
    SR(Vec<(i32, i32)>),   // SRATIONAL
    Ifds(Vec<Ifd>),        // pointers to directories
    Off(Vec<(usize, u32)>),// LONG offsets to blobs: (blob id, addend)
    OffU(usize, u32),      // as Off but written as UNDEFINED 4 bytes
    Maker(Box<Maker>),
    Raw(u16, u32, Vec<u8>),// explicit type, count, payload
}
#[derive(Clone, Debug)]
pub struct Maker {
    pub prefix: Vec<u8>,
    pub big: Option<bool>,
    pub ifd: Ifd,
    /// Some(n): value offsets inside are relative to makernote start + n; None: same base as the parent
    pub rel: Option<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct Ifd { pub e: Vec<(u16, V)> }
impl Ifd {
    pub fn new() -> Ifd { Ifd { e: Vec::new() } }
    pub fn t(mut self, tag: u16, v: V) -> Ifd { self.e.push((tag, v)); self }
    pub fn put(&mut self, tag: u16, v: V) { self.e.push((tag, v)); }
    pub fn set(&mut self, tag: u16, v: V) { for x in self.e.iter_mut() { if x.0 == tag { x.1 = v; return; } } self.e.push((tag, v)); }
    pub fn del(&mut self, tag: u16) { self.e.retain(|x| x.0 != tag); }
    pub fn s(self, tag: u16, v: u16) -> Ifd { self.t(tag, V::S(vec![v])) }
    pub fn l(self, tag: u16, v: u32) -> Ifd { self.t(tag, V::L(vec![v])) }
    pub fn a(self, tag: u16, v: &str) -> Ifd { self.t(tag, V::A(v.to_string())) }
}
/// blob id for a plain number in `V::Off`
pub const CONST: usize = usize::MAX;
/// Layout freedoms that must not matter.
#[derive(Clone, Debug)]
pub struct Layout {
    pub big: bool,
    pub order: u8,        // 0 as given, 1 reversed, 2 sorted by tag, 3 rotated
    pub values_first: bool,
    pub blobs_first: bool,
    pub pad: usize,       // junk bytes before each item; an odd number puts every item at an odd position
    pub unknown: u8,      // 0 none, 1 unknown tags at the front, 2 at the end, 3 both with out-of-line values
    pub long_ints: bool,  // SHORT scalars written as LONG where legal
    pub tail: usize,      // junk at the end of the file
    pub last: usize,      // the blob (counted from 1) that is put behind the others
}
impl Layout {
    pub fn std(big: bool) -> Layout { Layout { big, order: 0, values_first: false, blobs_first: false, pad: 0, unknown: 0, long_ints: false, tail: 0, last: 0 } }
}
/// Patches absolute addresses into the finished file: gets the bytes and the position of every blob.
pub type Late = std::rc::Rc<dyn Fn(&mut Vec<u8>, &[usize])>;
#[derive(Clone)]
pub struct Tiff { pub ifds: Vec<Ifd>, pub blobs: Vec<Vec<u8>>, pub blob_align: Vec<(usize, usize)>,
    /// bytes directly after the 8-byte header
    pub pre: Vec<u8>, pub late: Vec<Late> }

struct W<'a> { o: Vec<u8>, fix: Vec<(usize, bool, usize, u32, usize)>, lay: &'a Layout, fields: Vec<Field>, mlen: u32 }
/// A header field of the produced file, for corruption menus.
#[derive(Clone, Debug)]
pub struct Field { pub pos: usize, pub len: usize, pub big: bool, pub what: String }

fn p16(b: bool, v: u16) -> [u8; 2] { if b { v.to_be_bytes() } else { v.to_le_bytes() } }
fn p32(b: bool, v: u32) -> [u8; 4] { if b { v.to_be_bytes() } else { v.to_le_bytes() } }

const JUNK: [u8; 7] = [0xa5, 0x3c, 0x0f, 0x91, 0x66, 0xf2, 0x18];

impl<'a> W<'a> {
    fn pad(&mut self) { for i in 0..self.lay.pad { self.o.push(JUNK[i % 7]); } while self.o.len() % 2 != (self.lay.pad & 1) { self.o.push(0x5a); } }
    fn w16(&mut self, at: usize, b: bool, v: u16) { self.o[at..at + 2].copy_from_slice(&p16(b, v)); }
    fn w32(&mut self, at: usize, b: bool, v: u32) { self.o[at..at + 4].copy_from_slice(&p32(b, v)); }

    fn ifd(&mut self, ifd: &Ifd, base: usize, big: bool, ptr: Option<usize>, relocate: bool) -> usize {
        let mut es = ifd.e.clone();
        match self.lay.order { 1 => es.reverse(), 2 => es.sort_by_key(|x| x.0), 3 => if !es.is_empty() { let n = es.len() / 2; es.rotate_left(n) }, _ => {} }
        // tags that no decoder knows
        match self.lay.unknown {
            1 => es.insert(0, (0xfb01, V::L(vec![0xdeadbeef]))),
            2 => es.push((0xfb02, V::S(vec![1, 2, 3, 4, 5]))),
            3 => { es.insert(0, (0xfb03, V::A("unknown tag value".into()))); es.push((0xfb04, V::Raw(7, 9, vec![9; 9]))); }
            _ => {}
        }
        let n = es.len();
        let mut vals: Vec<Option<[u8; 4]>> = vec![None; n];
        let vf = self.lay.values_first && relocate;
        let place = |w: &mut W, i: usize, at: Option<usize>| -> [u8; 4] { w.value(&es[i].1, base, big, at) };
        if vf { for i in 0..n { vals[i] = Some(place(self, i, None)); } }
        if relocate { self.pad(); }
        let pos = self.o.len();
        if let Some(p) = ptr { let v = (pos - base) as u32; self.w32(p, big, v); }
        self.o.resize(pos + 2 + n * 12 + 4, 0);
        self.w16(pos, big, n as u16);
        self.fields.push(Field { pos, len: 2, big, what: "ifd count".into() });
        for i in 0..n {
            let at = pos + 2 + i * 12;
            let (typ, cnt) = self.tc(&es[i].1);
            self.w16(at, big, es[i].0);
            self.w16(at + 2, big, typ);
            self.w32(at + 4, big, cnt);
            self.fields.push(Field { pos: at, len: 2, big, what: format!("tag {:04x}", es[i].0) });
            self.fields.push(Field { pos: at + 2, len: 2, big, what: format!("type of {:04x}", es[i].0) });
            self.fields.push(Field { pos: at + 4, len: 4, big, what: format!("count of {:04x}", es[i].0) });
            self.fields.push(Field { pos: at + 8, len: 4, big, what: format!("value of {:04x}", es[i].0) });
            let v = match vals[i] { Some(v) => v, None => place(self, i, Some(at + 8)) };
            if let V::Maker(_) = es[i].1 { let n = self.mlen; self.w32(at + 4, big, n); }
            // offsets are fixed up later at their final place
            if v != [0xEE, 0xFF, 0xC0, 0x00] { self.o[at + 8..at + 12].copy_from_slice(&v); }
            else if vf { self.inline_fix(&es[i].1, at + 8, base, big); }
        }
        self.fields.push(Field { pos: pos + 2 + n * 12, len: 4, big, what: "next ifd".into() });
        pos
    }
    fn eff(&self, v: &V) -> V {
        match v { V::S(x) if self.lay.long_ints && x.len() == 1 => V::L(vec![x[0] as u32]), v => v.clone() }
    }
    fn tc(&self, v: &V) -> (u16, u32) {
        match self.eff(v) {
            V::B(b) => (1, b.len() as u32), V::A(s) => (2, s.len() as u32 + 1), V::S(x) => (3, x.len() as u32), V::L(x) => (4, x.len() as u32),
            V::U(b) => (7, b.len() as u32), V::R(x) => (5, x.len() as u32), V::SR(x) => (10, x.len() as u32), V::Ifds(x) => (4, x.len() as u32),
            V::Off(x) => (4, x.len() as u32), V::OffU(..) => (7, 4), V::Maker(_) => (7, self.mlen), V::Raw(t, c, _) => (t, c),
        }
    }
    fn inline_fix(&mut self, v: &V, at: usize, base: usize, big: bool) {
        match v {
            V::Off(x) if x.len() == 1 => self.fix.push((at, big, x[0].0, x[0].1, base)),
            V::OffU(b, a) => self.fix.push((at, big, *b, *a, base)),
            _ => unreachable!(),
        }
    }
    fn value(&mut self, v: &V, base: usize, big: bool, at: Option<usize>) -> [u8; 4] {
        let later = [0xEE, 0xFF, 0xC0, 0x00];
        let v = &self.eff(v);
        let data: Vec<u8> = match v {
            V::B(b) | V::U(b) | V::Raw(_, _, b) => b.clone(),
            V::A(s) => { let mut b = s.as_bytes().to_vec(); b.push(0); b }
            V::S(x) => x.iter().flat_map(|&v| p16(big, v)).collect(),
            V::L(x) => x.iter().flat_map(|&v| p32(big, v)).collect(),
            V::R(x) => x.iter().flat_map(|&(a, b)| { let mut v = p32(big, a).to_vec(); v.extend(p32(big, b)); v }).collect(),
            V::SR(x) => x.iter().flat_map(|&(a, b)| { let mut v = p32(big, a as u32).to_vec(); v.extend(p32(big, b as u32)); v }).collect(),
            V::Off(x) if x.len() == 1 => { if let Some(at) = at { self.fix.push((at, big, x[0].0, x[0].1, base)); } return later; }
            V::OffU(b, a) => { if let Some(at) = at { self.fix.push((at, big, *b, *a, base)); } return later; }
            V::Off(x) => {
                self.pad();
                let p = self.o.len();
                self.o.resize(p + 4 * x.len(), 0);
                for (i, y) in x.iter().enumerate() { self.fix.push((p + 4 * i, big, y.0, y.1, base)); }
                return p32(big, (p - base) as u32);
            }
            V::Ifds(x) => {
                let ps: Vec<u32> = x.iter().map(|i| (self.ifd(i, base, big, None, true) - base) as u32).collect();
                if ps.len() == 1 { return p32(big, ps[0]); }
                self.pad();
                let p = self.o.len();
                for q in ps { self.o.extend_from_slice(&p32(big, q)); }
                return p32(big, (p - base) as u32);
            }
            V::Maker(m) => {
                self.pad();
                let p = self.o.len();
                self.o.extend_from_slice(&m.prefix);
                let nb = match m.rel { Some(n) => p + n, None => base };
                self.ifd(&m.ifd, nb, m.big.unwrap_or(big), None, false);
                let want = p + if crate::bits::tight() { 0 } else { 1000 };
                while self.o.len() < want { self.o.push(0x33); }
                self.mlen = (self.o.len() - p) as u32;
                return p32(big, (p - base) as u32);
            }
        };
        if data.len() <= 4 { let mut r = [0u8; 4]; r[..data.len()].copy_from_slice(&data); return r; }
        self.pad();
        let p = self.o.len();
        self.o.extend_from_slice(&data);
        p32(big, (p - base) as u32)
    }
}

impl Tiff {
    pub fn new(ifds: Vec<Ifd>) -> Tiff { Tiff { ifds, blobs: Vec::new(), blob_align: Vec::new(), pre: Vec::new(), late: Vec::new() } }
    pub fn blob(&mut self, b: Vec<u8>) -> usize { self.blobs.push(b); self.blobs.len() - 1 }
    pub fn build(&self, lay: &Layout) -> Vec<u8> { self.build_at(&[], lay).0 }
    /// Lays the file out after `head` bytes; all offsets are relative to the end of `head`.
    pub fn build_at(&self, head: &[u8], lay: &Layout) -> (Vec<u8>, Vec<Field>) {
        let base = head.len();
        let mut w = W { o: head.to_vec(), fix: Vec::new(), lay, fields: Vec::new(), mlen: 1000 };
        let big = lay.big;
        w.o.extend_from_slice(if big { b"MM" } else { b"II" });
        w.o.extend_from_slice(&p16(big, 42));
        w.o.extend_from_slice(&[0; 4]);
        w.fields.push(Field { pos: base, len: 2, big, what: "byte order mark".into() });
        w.fields.push(Field { pos: base + 4, len: 4, big, what: "first ifd offset".into() });
        w.o.extend_from_slice(&self.pre);
        let mut bpos = vec![0usize; self.blobs.len()];
        let put_blobs = |w: &mut W, bpos: &mut Vec<usize>| for (i, b) in self.blobs.iter().enumerate().filter(|x| x.0 + 1 != lay.last).chain(self.blobs.iter().enumerate().filter(|x| x.0 + 1 == lay.last)) {
            w.pad();
            if let Some(a) = self.blob_align.iter().find(|x| x.0 == i) { while w.o.len() % a.1 != 0 { w.o.push(0); } }
            bpos[i] = w.o.len();
            w.o.extend_from_slice(b);
        };
        if lay.blobs_first { put_blobs(&mut w, &mut bpos); }
        let mut ptr = base + 4;
        for i in self.ifds.iter() {
            let n0 = i.e.len() + match lay.unknown { 1 | 2 => 1, 3 => 2, _ => 0 };
            let p = w.ifd(i, base, big, None, true);
            let v = (p - base) as u32;
            w.w32(ptr, big, v);
            ptr = p + 2 + n0 * 12;
        }
        if !lay.blobs_first { put_blobs(&mut w, &mut bpos); }
        for (at, b, blob, add, vb) in w.fix.clone() { let v = if blob == CONST { add } else { (bpos[blob] - vb) as u32 + add }; w.w32(at, b, v); }
        for l in self.late.iter() { l(&mut w.o, &bpos); }
        for i in 0..lay.tail { w.o.push(JUNK[i % 7]); }
        (w.o, w.fields)
    }
}
