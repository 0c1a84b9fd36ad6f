//! One small valid file per format, compression and metadata variant, with what decoding it must give.
//! A `Site` is a place where a format stores metadata: a file builder parameterised by the stored values.
use crate::{bits::*, camdb::*, chk::mix, enc::*, fmt::*, lj::*, tiffb::*};

/// byte order of the container and of the maker note, orientation code
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opt { pub big: bool, pub mbig: bool, pub orient: u16 }
type Build = Box<dyn Fn(&[u32], Opt) -> Option<(Doc, Exp)>>;
pub struct Site {
    pub name: String,
    /// default and largest value of each stored field
    pub def: Vec<u32>, pub max: Vec<u32>,
    pub orients: bool, pub orders: bool, pub morders: bool,
    /// files of more than about 100 kB
    pub heavy: bool,
    pub build: Build,
}
pub struct Sample { pub name: String, pub doc: Doc, pub exp: Exp, pub heavy: bool }

pub fn px(w: usize, h: usize, bits: u32, seed: usize) -> Vec<u16> { (0..w * h).map(|i| (mix(i / w, i % w, seed) & ((1u32 << bits) - 1)) as u16).collect() }
/// samples that stay close to a middle level
pub fn calm(w: usize, h: usize, mid: u16, spread: u32, seed: usize) -> Vec<u16> { (0..w * h).map(|i| mid + (mix(i / w, i % w, seed) % spread) as u16).collect() }
fn f(x: u32) -> f32 { x as f32 }
fn cam(make: &str, model: &str, mode: &str) -> Cam { Db::load().cam(make, model, mode) }

pub fn ljpeg(w: usize, h: usize, cps: usize, prec: u8, s: &[u16]) -> Vec<u8> { Lj::new(prec, w / cps, h, cps, Huff::chain(2, 0)).encode(s).unwrap() }
/// Hasselblad: two differences at a time, one predictor row
pub fn hass(w: usize, h: usize, d: &dyn Fn(usize) -> i32) -> (Vec<u8>, Vec<u16>) {
    let mut lj = Lj::new(16, w, h, 1, Huff::chain(2, 3)); lj.pred = 8;
    let codes = lj.code(0);
    let mut b = Bits::new();
    let mut o = vec![0u16; w * h];
    for r in 0..h {
        let mut p = [0x8000u16; 2];
        for c in (0..w).step_by(2) {
            let ds = [d(r * w + c), d(r * w + c + 1)];
            let ms: Vec<(u32, u32)> = ds.iter().map(|&x| mag(x)).collect();
            for x in ds { let k = codes[cat(x) as usize].unwrap(); b.put(k.0, k.1); }
            for m in ms { b.put(m.0, m.1); }
            for i in 0..2 { p[i] = p[i].wrapping_add(ds[i] as u16); o[r * w + c + i] = p[i]; }
        }
    }
    let mut out = lj.head(); out.extend(b.msb32()); out.extend([0xff, 0xd9, 0, 0, 0, 0]);
    (out, o)
}

pub fn sites() -> Vec<Site> {
    let mut v: Vec<Site> = Vec::new();
    fn add<F: Fn(&[u32], Opt) -> Option<(Doc, Exp)> + 'static>(v: &mut Vec<Site>, name: &str, def: &[u32], max: &[u32], flags: &str, fun: F) {
        v.push(Site { name: name.into(), def: def.to_vec(), max: max.to_vec(), orients: flags.contains('o'), orders: flags.contains('b'), morders: flags.contains('m'), heavy: flags.contains('h'), build: Box::new(fun) });
    }
    let m16 = [65535u32; 4];
    let ex = |make: &str, model: &str, mode: &str, w: usize, h: usize, s: Vec<u16>, wb: [f32; 4], o: u16| -> Exp { let mut e = Exp::cam(&cam(make, model, mode), w, h, s, wb); e.orient = o; e };
    add(&mut v, "ARI", &[1500, 1000, 1250], &[u32::MAX; 3], "", move |x, _| {
        let (w, h) = (8, 4); let s = px(w, h, 12, 1);
        let wb = [f(x[0]) / 64.0, f(x[1]) / 64.0, f(x[2]) / 64.0];
        Some((ari(w, h, &p12_words32(&s), wb, "ALEXA"), ex("ARRI", "ALEXA", "", w, h, s, [wb[0], wb[1], wb[2], NAN], 0)))
    });
    for rggb in [true, false] { for key in [0x1234567u32, 0xffffffff, 0] { add(&mut v, &format!("ARW rggb={} key {:x}", rggb, key), &[500, 256, 257, 400], &m16, "o", move |x, o| {
        let (w, h) = (6, 4); let s = px(w, h, 16, 2);
        let lv = [x[0] as u16, x[1] as u16, x[2] as u16, x[3] as u16];
        Some((arw(&ArwP { model: "DSLR-A300", w, h, comp: 1, bps: 16, count: w * h * 2, curve: None, rggb, lv, key, orient: o.orient }, w16(false, &s)), ex("SONY", "DSLR-A300", "", w, h, s, sony_wb(rggb, lv), o.orient)))
    }); } }
    for (make, model, packed) in [("KONICA MINOLTA", "DYNAX 5D", true), ("Minolta Co., Ltd.", "DiMAGE 7", false), ("KONICA MINOLTA", "DiMAGE A200", true)] { for order in 0..4u8 { add(&mut v, &format!("MRW {} blocks {}", model, order), &[300, 256, 255, 400], &m16, "o", move |x, o| {
        let (w, h) = (8, 4); let s = px(w, h, 12, 3);
        let lv = [x[0] as u16, x[1] as u16, x[2] as u16, x[3] as u16];
        let c = cam(make, model, "");
        let wb = if c.hint("swapped_wb") { [f(x[2]), f(x[0]), f(x[1]), NAN] } else { [f(x[0]), f(x[1]), f(x[3]), NAN] };
        Some((mrw(make, model, w, h, packed, &if packed { p12be(&s) } else { w16(true, &s) }, lv, o.orient, order), ex(make, model, "", w, h, s, wb, o.orient)))
    }); } }
    add(&mut v, "ERF", &[300, 400], &m16[..2], "ob", move |x, o| {
        let (w, h) = (20, 3); let s = px(w, h, 12, 4);
        Some((erf(w, h, p12_control(w, &s, true, 0), x[0] as u16, x[1] as u16, o.orient, o.big), ex("SEIKO EPSON CORP.", "R-D1", "", w, h, s, [f(x[0]) * 508.0 * 1.078 / 65536.0, 1.0, f(x[1]) * 382.0 * 1.173 / 65536.0, NAN], o.orient)))
    });
    let kmd = "KODAK P880 ZOOM DIGITAL CAMERA";
    let kmk = "EASTMAN KODAK COMPANY";
    for kind in 0..4 { add(&mut v, &format!("KDC white balance kind {}", kind), &[400, 256, 300], &[0xffffffff; 3], "ob", move |x, o| {
        if kind >= 2 && (x[0] > 65535 || x[2] > 65535 || x[1] != 256) { return None; }
        let (w, h) = (82, 71); let s = px(w, h, 12, 5);
        let (kw, wb) = match kind {
            0 => (KdcWb::F(x[0], x[1], x[2]), [f(x[0]), f(x[1]), f(x[2]), NAN]),
            1 => (KdcWb::R([(x[0], 64), (x[1], 100), (x[2], 3)]), [f(x[0]) / 64.0, f(x[1]) / 100.0, f(x[2]) / 3.0, NAN]),
            _ => (KdcWb::Old(if kind == 2 { 734 } else { 1502 }, x[0] as u16, x[2] as u16), [f(x[0]) / 256.0, 1.0, f(x[2]) / 256.0, NAN]),
        };
        Some((kdc(kmd, w, h, p12be(&s), kw, None, o.orient, o.big), ex(kmk, kmd, "", w, h, s, wb, o.orient)))
    }); }
    add(&mut v, "MEF", &[], &[], "ob", move |_, o| { let (w, h) = (6, 4); let s = px(w, h, 12, 6); Some((mef(w, h, p12be(&s), o.orient, o.big), ex("Mamiya-OP Co.,Ltd.", "MAMIYA ZD", "", w, h, s, [NAN; 4], o.orient))) });
    for kind in 0..5 { add(&mut v, &format!("NRW white balance kind {}", kind), &[300, 250, 260, 400], &[if kind == 0 { u32::MAX } else { 0xfffff }; 4], "obm", move |x, o| {
        let (w, h) = (1002, 1); let s = px(w, h, 12, 7);
        let x4 = [x[0], x[1], x[2], x[3]];
        let (kw, md) = match kind {
            0 => (NrwWb::R(f(x[0]) / f(x[1]), f(x[2]) / f(x[3]), [(x[0], x[1]), (x[2], x[3])]), "COOLPIX P330"),
            1 => (NrwWb::V100(x4), "COOLPIX P330"), 2 => (NrwWb::Other(x4), "COOLPIX P330"),
            3 => { if x[0] > 65535 || x[3] > 65535 { return None; } (NrwWb::Old(x[0] as u16, x[3] as u16), "COOLPIX P330") }
            _ => (NrwWb::V100(x4), "E5700"),
        };
        let wb = if kind == 4 { [NAN; 4] } else { nrw_wb(&kw) };
        let p = if cam("NIKON", md, "").hint("coolpixsplit") { p12_fields(w, h, &s, 0) } else { p12be(&s) };
        Some((nrw(md, w, h, p, &kw, o.orient, o.big, o.mbig), ex("NIKON", md, "", w, h, s, wb, o.orient)))
    }); }
    add(&mut v, "RAF", &[256, 400, 500], &[0xffffffff; 3], "ob", move |x, o| { let (w, h) = (6, 4); let s = px(w, h, 14, 8); Some((raf_new("GFX 50S", w, h, Some(14), w16(false, &s), [x[0], x[1], x[2]], o.orient, o.big), ex("FUJIFILM", "GFX 50S", "", w, h, s, [f(x[1]), f(x[0]), f(x[2]), NAN], o.orient))) });
    // old RAF: the sensor grid is turned by 45 degrees
    if let Some(c) = Db::load().all.iter().find(|c| c.make == "FUJIFILM" && c.mode == "" && c.hint("double_width") && c.hint("fuji_rotation") && c.areah.1 + c.areav.1 == 0) {
        let c = c.clone();
        add(&mut v, &format!("RAF old {}", c.model), &[256, 300, 257, 400], &m16, "ob", move |x, o| {
            let (nw, nh) = (6usize, 4usize);
            let (w, h) = (c.crops[1] + c.crops[3] + nw, c.crops[0] + c.crops[2] + nh); let s = px(w, h, 14, 9);
            let mut p = Vec::new();
            for r in s.chunks(w) { p.extend(w16(false, r)); p.extend(vec![0xddu8; w * 2]); }
            if &p[..2] == b"II" || &p[..2] == b"MM" { return None; }
            let rw = nw + nh / 2;
            let mut d = vec![0u16; rw * (rw - 1)];
            for r in 0..nh { for k in 0..nw { d[(nw - 1 - k + r / 2) * rw + k + (r + 1) / 2] = s[(r + c.crops[0]) * w + k + c.crops[3]]; } }
            let mut e = Exp::cam(&c, rw, rw - 1, d, [f(x[1]), f(x[0]), f(x[3]), NAN]); e.orient = o.orient; e.crops = [0; 4];
            Some((raf_old(&c.model, w, h, p, [x[0] as u16, x[1] as u16, x[2] as u16, x[3] as u16], o.orient, o.big), e))
        });
    }
    for (make, model) in [("OLYMPUS OPTICAL CO.,LTD", "C5050Z"), ("OLYMPUS CORPORATION", "E-M10MarkII")] { for kind in 0..3 { add(&mut v, &format!("ORF {} white balance kind {}", model, kind), &[300, 400, 3, 4], &m16, if kind == 0 { "ob" } else { "o" }, move |x, o| {
        let (w, h) = (6, 4); let s = px(w, h, 12, 10);
        let kw = match kind { 0 => OrfWb::Mul(x[0] as u16, x[1] as u16), 1 => OrfWb::Img2(x[0] as u16, x[1] as u16), _ => OrfWb::Img4([x[0] as u16, x[1] as u16, x[2] as u16, x[3] as u16]) };
        let wb = orf_wb(&kw);
        let j: Vec<u16> = s.iter().map(|x| x << 4).collect();
        Some((orf(make, model, w, h, vec![(w * h * 2) as u32], w16(o.big, &j), kw, o.orient, o.big), ex(make, model, "", w, h, s, wb, o.orient)))
    }); } }
    for kind in 0..2 { add(&mut v, &format!("RW2 white balance kind {}", kind), &[300, 256, 400], &m16[..3], "ob", move |x, o| {
        let (w, h) = (16, 12); let s = px(w, h, 12, 11);
        let kw = if kind == 0 { PanaWb::Rb(x[0] as u16, x[2] as u16) } else { PanaWb::Rgb(x[0] as u16, x[1] as u16, x[2] as u16) };
        let wb = pana_wb(&kw);
        let m = pana_mode(w, h);
        Some((rw2("LEICA", "DIGILUX 2", w, h, false, w16(false, &s.iter().map(|x| x << 4).collect::<Vec<_>>()), kw, o.orient, o.big), ex("LEICA", "DIGILUX 2", m, w, h, s, wb, o.orient)))
    }); }
    for model in ["NX10", "NX1"] { add(&mut v, &format!("SRW {}", model), &[500, 300, 301, 400, 1, 2, 3, 4], &[0xfffff, 0xfffff, 0xfffff, 0xfffff, 0xfffff, 0xfffff, 0xfffff, 0xfffff], "ob", move |x, o| {
        let (w, h) = (6, 4); let s = px(w, h, 12, 12);
        let (lv, bl) = ([x[0], x[1], x[2], x[3]], [x[4], x[5], x[6], x[7]]);
        let (comp, p) = if model == "NX10" { (32770, p12be(&s)) } else { (32769, w16(false, &s)) };
        Some((srw(model, w, h, comp, 12, p, None, lv, bl, o.orient, o.big), ex("SAMSUNG", model, "", w, h, s, srw_wb(lv, bl), o.orient)))
    }); }
    for style in 0..2u8 { for bl in [false, true] { add(&mut v, &format!("PEF style {} black levels {}", style, bl), &[300, 256, 257, 400, 50, 60, 70, 80], &[65535; 8], "obm", move |x, o| {
        if !bl && x[4..] != [50, 60, 70, 80] { return None; }
        let (w, h) = (6, 4); let s = px(w, h, 16, 13);
        let (make, model) = ("PENTAX Corporation", "PENTAX *ist D");
        let b = [x[4] as u16, x[5] as u16, x[6] as u16, x[7] as u16];
        let mut e = ex(make, model, "", w, h, s.clone(), [f(x[0]), f(x[1]), f(x[3]), NAN], o.orient);
        if bl { e.black = b; }
        Some((pef(make, model, w, h, 1, 16, w16(true, &s), [x[0] as u16, x[1] as u16, x[2] as u16, x[3] as u16], if bl { Some(b) } else { None }, None, style, o.orient, o.big, o.mbig), e))
    }); } }
    for wbk in [true, false] { add(&mut v, &format!("MOS neutrals {}", wbk), &[1000, 500, 1000, 800], &[9_999_999; 4], "b", move |x, o| {
        if !wbk && x != [1000, 500, 1000, 800] { return None; }
        let (w, h) = (6, 4); let s = px(w, h, 16, 14);
        let n = if wbk { Some([x[0], x[1], x[2], x[3]]) } else { None };
        Some((mos("Leaf", "Leaf Aptus 75", w, h, 1, w16(o.big, &s), n, o.big), ex("Leaf", "Leaf Aptus 75", "", w, h, s, mos_wb(n), 0)))
    }); }
    for kind in 0..5 { for model in ["NIKON D300", "NIKON D40"] { if Db::load().get("NIKON CORPORATION", model, "12bit").is_none() || kind > 0 && model != "NIKON D300" { continue; }
        add(&mut v, &format!("NEF {} white balance kind {}", model, kind), &[3, 2, 5, 4], &[if kind == 0 { u32::MAX } else { 65535 }; 4], "obm", move |x, o| {
        let c = cam("NIKON CORPORATION", model, "12bit");
        let (w, h) = (c.crops[1] + c.crops[3] + 6, c.crops[0] + c.crops[2] + 4); let s = px(w, h, 12, 15);
        let r = [x[0] as u16, x[1] as u16, x[2] as u16];
        let kw = match kind { 0 => NefWb::Plain([(x[0], x[1]), (x[2], x[3])]), 1 => NefWb::V100(r), 2 => NefWb::V103(r), 3 => NefWb::Enc { v: 204, rgb: r, serial: "2345678", key: [1, 2, 3, 4] }, _ => NefWb::Enc { v: 205, rgb: r, serial: "D70 03x2", key: [0xfe, 0, 0x10, 1] } };
        let p = if o.big { p12be(&s) } else { p12le(&s) };
        Some((nef(model, w, h, 1, 12, p.len(), p, None, &kw, o.orient, o.big, o.mbig), { let mut e = Exp::cam(&c, w, h, s, nef_wb(&kw)); e.orient = o.orient; e }))
    }); } }
    // CRW: wb places
    let crw_site = |v: &mut Vec<Site>, name: &str, model: &'static str, def: &[u32], mk: fn(&[u32], &Cam) -> (CrwWb, [f32; 4])| {
        let c = cam("Canon", model, "");
        let (ww, hh) = (((c.crops[1] + c.crops[3]).max(c.areav.0 + c.areav.1) + 15) / 8 * 8, (c.crops[0] + c.crops[2] + c.areah.0 + c.areah.1 + 15) / 8 * 8);
        add(v, &format!("CRW {} {}", model, name), def, &vec![65535; def.len()], "", move |x, _| {
            let (w, h) = (ww, hh);
            let (kw, wb) = mk(x, &c);
            let mut b = Bits::new();
            let mut blocks = Vec::new();
            for n in 0..w * h / 64 { let mut d = [0i32; 64]; for i in 1..64 { d[i] = (mix(n, i, 1) % 7) as i32 - 3; } crw_block(&mut b, 0, &d).unwrap(); blocks.push(d); }
            let s = crw_samples(w, h, &blocks);
            let low = !c.hint("nolowbits");
            let lb = |i: usize| (mix(i, 7, 7) & 3) as u8;
            let lows: Vec<u8> = (0..w * h / 4).map(|i| (0..4).fold(0, |a, j| a | lb(i * 4 + j) << (2 * j))).collect();
            let data: Vec<u16> = s.iter().enumerate().map(|(i, &y)| if low { y << 2 | lb(i) as u16 } else { y }).collect();
            Some((crw(&c.model, w, h, 0, if low { Some(&lows) } else { None }, &b.jpeg(), &kw, 1), Exp::cam(&c, w, h, data, wb)))
        });
    };
    let pick = |p: &dyn Fn(&Cam) -> bool| -> Option<&'static str> { Db::load().all.iter().find(|c| c.make == "Canon" && c.mode == "" && p(c)).map(|c| &*Box::leak(c.model.clone().into_boxed_str())) };
    crw_site(&mut v, "white balance table", "Canon EOS 10D", &[10, 20, 30, 40, 50], |x, c| { let mut t = vec![9u16; c.wb_offset]; t.extend(x.iter().map(|&y| y as u16)); t.extend([3; 20]); (CrwWb::Wb(t), [f(x[0]), f(x[1]), f(x[3]), NAN]) });
    if let Some(m) = pick(&|c| !c.hint("nocinfo2") && c.hint("nolowbits") && c.wb_offset == 0) {
        crw_site(&mut v, "colour info 2, large", m, &[600, 20, 30, 40, 50], |x, _| { if x[0] <= 512 { return (CrwWb::None, [NAN; 4]); } let mut t = vec![0u16; 100]; t[0] = x[0] as u16; for i in 0..4 { t[60 + i] = x[1 + i] as u16; } (CrwWb::Info2(t), [f(x[3]), f(x[4]), f(x[1]), f(x[2])]) });
        crw_site(&mut v, "colour info 2, small", m, &[512, 20, 30, 40, 50], |x, _| { if x[0] > 512 { return (CrwWb::None, [NAN; 4]); } let mut t = vec![0u16; 100]; t[0] = x[0] as u16; for i in 0..4 { t[50 + i] = x[1 + i] as u16; } (CrwWb::Info2(t), [f(x[2]), (f(x[1]) + f(x[4])) / 2.0, f(x[3]), NAN]) });
    }
    let info1 = |x: &[u32], c: &Cam| { let k = if c.hint("wb_mangle") { [0x410u16, 0x45f3] } else { [0, 0] }; let mut t = vec![9u16; c.wb_offset + 60]; t[c.wb_offset] = x[0] as u16 ^ k[0]; t[c.wb_offset + 1] = x[1] as u16 ^ k[1]; t[c.wb_offset + 2] = x[2] as u16 ^ k[0]; if t.len() == 384 { t.push(0); } (CrwWb::Info1(t), [f(x[1]), f(x[0]), f(x[2]), NAN]) };
    if let Some(m) = pick(&|c| c.hint("wb_mangle") && c.areav.0 == 0) { crw_site(&mut v, "colour info 1, mangled", m, &[20, 30, 40], info1); }
    if let Some(m) = pick(&|c| c.wb_offset > 0 && c.hint("nolowbits") && !c.hint("wb_mangle")) { crw_site(&mut v, "colour info 1", m, &[20, 30, 40], info1); }
    if Db::load().get("Canon", "Canon EOS D30", "").is_some() { crw_site(&mut v, "colour info 1 of D30 size", "Canon EOS D30", &[20, 30, 40], |x, _| { let mut t = vec![9u16; 384]; t[36] = x[0] as u16; t[37] = x[1] as u16; t[39] = x[2] as u16; (CrwWb::Info1(t), [1024.0 / f(x[0]), 1024.0 / f(x[1]), 1024.0 / f(x[2]), NAN]) }); }
    crw_site(&mut v, "none", "Canon EOS 10D", &[], |_, _| (CrwWb::None, [NAN; 4]));
    // CR2
    for (kind, model) in [(0, "Canon EOS 450D"), (0, "Canon EOS 40D"), (1, "Canon EOS 450D"), (2, "Canon EOS 450D"), (3, "Canon EOS 450D")] { for rk in [Cr2Kind::Id, Cr2Kind::Cfa, Cr2Kind::Old] { if rk != Cr2Kind::Id && kind != 0 { continue; }
        add(&mut v, &format!("CR2 {} white balance kind {} directory {}", model, kind, rk as u8), &[2000, 1024, 1025, 1500], &[if kind == 1 || kind == 2 { u32::MAX } else { 65535 }; 4], "ob", move |x, o| {
        let c = cam("Canon", model, "");
        let (w, h) = ((c.crops[1] + c.crops[3] + c.areav.0 + c.areav.1 + 5) / 2 * 2, c.crops[0] + c.crops[2] + c.areah.0 + c.areah.1 + 4);
        let s = px(w, h, 14, 16);
        let off = if c.wb_offset != 0 { c.wb_offset } else { 63 };
        let (kw, wb) = match kind {
            0 => { let mut t = vec![7u16; off]; t.extend(x.iter().map(|&y| y as u16)); t.extend(vec![9; (x[0] + x[1] * 3 + x[2] + x[3]) as usize % 5 * 9]); (Cr2Wb::Color(t), [f(x[0]), f(x[1]), f(x[3]), NAN]) }
            1 => (Cr2Wb::Power([1, 2, x[1], x[0], x[2], x[3], 8, 9][..5 + x.iter().fold(0usize, |a, &y| a.wrapping_mul(3).wrapping_add(y as usize)) % 4].to_vec()), [f(x[0]), f(x[1]), f(x[2]), NAN]),
            2 => (Cr2Wb::Old([(x[0], 256), (x[1], 3), (x[2], 100)]), [f(x[0]) / 256.0, f(x[1]) / 3.0, f(x[2]) / 100.0, NAN]),
            _ => (Cr2Wb::None, [NAN; 4]),
        };
        let mut e = Exp::cam(&c, w, h, s.clone(), wb); e.orient = o.orient;
        Some((cr2("Canon", model, rk, ljpeg(w, h, 2, 14, &s), Some((w, h)), None, &kw, None, o.orient, o.big), e))
    }); } }
    add(&mut v, "TFR", &[1, 2, 1, 1, 2, 3], &[0xffffffff; 6], "ob", move |x, o| {
        let (w, h) = (6, 4);
        let (e, s) = hass(w, h, &|i| (mix(i, 1, 1) % 400) as i32 - 200);
        Some((tfr("Hasselblad H3D", w, h, e, [(x[0], x[1]), (x[2], x[3]), (x[4], x[5])], o.orient, o.big), { let mut c = ex("Hasselblad", "Hasselblad H3D", "", w, h, s, [1.0 / (f(x[0]) / f(x[1])), 1.0 / (f(x[2]) / f(x[3])), 1.0 / (f(x[4]) / f(x[5])), NAN], o.orient); c.black = cam("Hasselblad", "Hasselblad H3D", "").black; c }))
    });
    for full in [true, false] { add(&mut v, &format!("DCR full={}", full), &[700, 800, 900], &m16[..3], "ob", move |x, o| {
        let (w, h) = (8, 4);
        let vals: Vec<i32> = (0..w * h).map(|i| 500 + (mix(i, 2, 1) % 100) as i32).collect();
        let mut by = Vec::new();
        for row in vals.chunks(w) { let mut p = [0i32; 2]; let d: Vec<i32> = row.iter().enumerate().map(|(i, &v)| { let d = v - p[i & 1]; p[i & 1] = v; d }).collect(); let l: Vec<u32> = d.iter().map(|&x| mags(x).0).collect(); by.extend(dcr_segment(&d, &l)); }
        by.extend(crate::bits::slack(8));
        let curve = Curve { t: (0..4096).map(|i| i * 16).collect() };
        let mut rnd = 0u32;
        let s: Vec<u16> = vals.iter().map(|&v| curve.get(v as usize, &mut rnd)).collect();
        let kw = if full { DcrWb::Full([x[0] as u16, x[1] as u16, x[2] as u16]) } else { DcrWb::Short((x[0] % 46) as usize) };
        Some((dcr("DCS Pro SLR/n", w, h, by, &curve.t, &kw, o.orient, o.big), ex("Kodak", "DCS Pro SLR/n", "", w, h, s, dcr_wb(&kw), o.orient)))
    }); }
    for torder in 0..3u8 { add(&mut v, &format!("IIQ tags order {}", torder), &[1500, 1000, 2000, 400], &[u32::MAX, u32::MAX, u32::MAX, 0x3ffff], "o", move |x, o| {
        let (w, h) = (16, 3); let s = calm(w, h, 100, 20, 17);
        let rows: Vec<Vec<u8>> = s.chunks(w).map(|r| { let mut b = iiq_row(w, r, &|g, _| if g == 0 { Some(9) } else { None }).unwrap(); b.pad(32, false); b.msb32() }).collect();
        let wb = [f(x[0]) / 64.0, f(x[1]) / 64.0, f(x[2]) / 64.0];
        let mut e = ex("Phase One A/S", "IQ250", "", w, h, s, [wb[0], wb[1], wb[2], NAN], o.orient);
        e.black = [(x[3] >> 2) as u16; 4];
        Some((iiq("IQ250", w, h, rows, wb, x[3], torder, torder, o.orient), e))
    }); }
    add(&mut v, "DCS", &[], &[], "b", move |_, o| { let md = "EOSDCS1B        FILE VERSION 3"; let (w, h) = (1004, 2); let b: Vec<u8> = px(w, h, 8, 18).iter().map(|&x| x as u8).collect(); let t: Vec<u16> = (0..256u32).map(|x| (x * x) as u16).collect(); Some((dcs(md, w, h, b.clone(), &t, o.big), ex("KODAK", md, "", w, h, curve8(w, &b, &t), [NAN; 4], 0))) });
    add(&mut v, "SRF", &[], &[], "h", move |_, _| { let (w, h) = (6, 4); let s = px(w, h, 16, 19); Some((srf(w, h, &s, 0xdeadbeef, 0x80000001, 5), ex("SONY", "DSC-F828", "", w, h, s, [NAN; 4], 0))) });
    // DNG with all its own metadata
    for bl in 0..4usize { add(&mut v, &format!("DNG {} black levels", [0, 1, 2, 4][bl]), &[1, 2, 1, 1, 2, 3, 64, 65, 66, 67, 4000], &[0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 65535, 65535, 65535, 65535, 65535], "ob", move |x, o| {
        let n = [0, 1, 2, 4][bl];
        if (n..4).any(|i| x[6 + i] != 64 + i as u32) { return None; }
        let (w, h) = (6, 4); let s = px(w, h, 16, 20);
        let mut d = dng(w, h, 1, 16, w16(o.big, &s), o.big);
        let r = dng_raw(&mut d);
        if n > 0 { r.put(0xc61a, V::S(x[6..6 + n].iter().map(|&y| y as u16).collect())); }
        r.set(0xc61d, V::L(vec![x[10]]));
        if o.orient > 0 { d.tiff().ifds[0].put(0x112, V::S(vec![o.orient])); }
        d.tiff().ifds[0].put(0xc628, V::R(vec![(x[0], x[1]), (x[2], x[3]), (x[4], x[5])]));
        let mut e = dng_exp(w, h, 1, s);
        e.wb = [1.0 / (f(x[0]) / f(x[1])), 1.0 / (f(x[2]) / f(x[3])), 1.0 / (f(x[4]) / f(x[5])), NAN];
        e.white = [x[10] as u16; 4];
        e.orient = o.orient;
        e.black = match n { 0 => [0; 4], 4 => [x[6] as u16, x[7] as u16, x[8] as u16, x[9] as u16], _ => [x[6] as u16; 4] };
        Some((d, e))
    }); }
    v
}

/// Every site with its default values plus one file per compression variant.
pub fn samples() -> Vec<Sample> {
    let mut v: Vec<Sample> = Vec::new();
    for s in sites() {
        // of the variants of one place, the first is enough here
        let stem = |n: &str| n.split(" key ").next().unwrap().split(" blocks ").next().unwrap().split(" tags order").next().unwrap().split(" directory ").next().unwrap().to_string();
        if v.iter().any(|x| stem(&x.name) == stem(&s.name)) { continue; }
        if let Some((doc, exp)) = (s.build)(&s.def, Opt { big: false, mbig: false, orient: if s.orients { 6 } else { 0 } }) { v.push(Sample { name: s.name.clone(), doc, exp, heavy: s.heavy }); }
    }
    let mut add = |name: &str, doc: Doc, exp: Exp, heavy: bool| v.push(Sample { name: name.into(), doc, exp, heavy });
    let a3 = |w, h, comp, bps, count, curve| ArwP { model: "DSLR-A300", w, h, comp, bps, count, curve, rggb: true, lv: [500, 256, 256, 400], key: 77, orient: 0 };
    let swb = sony_wb(true, [500, 256, 256, 400]);
    { let (w, h) = (8, 4); let s = px(w, h, 12, 1); add("ARW 12-bit packed", arw(&a3(w, h, 32767, 12, w * h * 3 / 2, None), p12le(&s)), Exp::cam(&cam("SONY", "DSLR-A300", ""), w, h, s, swb), false); }
    { let (w, h) = (3, 12); let (b, s) = arw1_scan(w, h, &mut |n, p| { let d = (mix(n, 1, 1) % 9) as i32 - 2; if p + d < 0 { 0 } else { d } }); let mut by = b.bytes(); by.extend([0; 8]); let n = by.len(); add("ARW1", arw(&a3(w, h - 8, 32767, 12, n, None), by), Exp::cam(&cam("SONY", "DSLR-A300", ""), w, h, s, swb), false); }
    { let (w, h) = (32, 2); let mut by = Vec::new(); let mut data = Vec::new();
      let c = [8000u16, 10400, 12900, 14100];
      let t = Curve { t: arw2_curve(c) };
      for r in 0..h { let bl: Vec<Arw2Block> = (0..2).map(|n| { let mut vv = [0u32; 16]; for i in 0..16 { vv[i] = mix(n, i, r) & 127; } Arw2Block { max: 900, min: 300, imax: 3, imin: 9, v: vv } }).collect();
        let (b, x) = arw2_row(&bl); let mut rnd = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16;
        let mut o = vec![0u16; w]; for n in 0..w / 16 { for i in 0..16 { let k = n / 2 * 32 + n % 2 + 2 * i; o[k] = t.get(x[k] as usize, &mut rnd); } }
        by.extend(b); data.extend(o); }
      let n = by.len();
      add("ARW2", arw(&ArwP { model: "SLT-A33", ..a3(w, h, 32767, 8, n, Some(c)) }, by), Exp::cam(&cam("SONY", "SLT-A33", ""), w, h, data, swb), false); }
    { let (w, h) = (16, 3); let s = px(w, h, 14, 2); let mut d = dng_lj(w, h, 1, 14, ljpeg(w, h, 2, 14, &s), false); let _ = dng_raw(&mut d); add("DNG lossless JPEG strip", d, dng_exp(w, h, 1, s), false); }
    { let (w, h, tw, tl) = (12usize, 10usize, 8usize, 4usize); let s = px(w, h, 12, 3);
      let mut tiles = Vec::new();
      for ty in 0..(h + tl - 1) / tl { for tx in 0..(w + tw - 1) / tw { let t: Vec<u16> = (0..tw * tl).map(|i| { let (r, c) = (ty * tl + i / tw, tx * tw + i % tw); if r < h && c < w { s[r * w + c] } else { 0 } }).collect(); tiles.push(ljpeg(tw, tl, 2, 12, &t)); } }
      add("DNG lossless JPEG tiles", dng_tiles(w, h, 1, 12, tw, tl, tiles, true), dng_exp(w, h, 1, s), false); }
    { let (w, h) = (4, 3); let s = px(w * 3, h, 12, 4); add("DNG linear lossless JPEG", dng_lj(w, h, 3, 12, ljpeg(w * 3, h, 3, 12, &s), true), dng_exp(w, h, 3, s), false); }
    { let (w, h) = (4, 3); let s = px(w * 3, h, 16, 5); add("DNG linear", dng(w, h, 3, 16, w16(true, &s), true), dng_exp(w, h, 3, s), false); }
    { let (w, h) = (8, 3); let s = px(w, h, 12, 6); add("DNG 12-bit", dng(w, h, 1, 12, p12be(&s), false), dng_exp(w, h, 1, s), false); }
    { let (w, h) = (8, 3); let s = px(w, h, 10, 6); add("DNG 10-bit", dng(w, h, 1, 10, p10be(&s), false), dng_exp(w, h, 1, s), false); }
    { let (w, h) = (8, 3); let b: Vec<u8> = px(w, h, 8, 7).iter().map(|&x| x as u8).collect(); let t: Vec<u16> = (0..256u32).map(|x| (x * 257) as u16).collect(); let mut d = dng(w, h, 1, 8, b.clone(), false); dng_raw(&mut d).put(0xc618, V::S(t.clone())); add("DNG 8-bit with curve", d, dng_exp(w, h, 1, curve8(w, &b, &t)), false); }
    // Canon stripes and sRAW
    { let c = { let mut c = cam("Canon", "Canon EOS-1D", ""); c.areah = (0, 0); c.areav = (0, 0); c }; let (n, w1, w2, h) = (2usize, 4usize, 6usize, 4usize); let w = n * w1 + w2;
      let data = px(w, h, 12, 8); let mut s = Vec::new(); let mut x = 0;
      for f in (0..n).map(|_| w1).chain(Some(w2)) { for r in 0..h { s.extend_from_slice(&data[r * w + x..r * w + x + f]); } x += f; }
      if c.hint("double_line") && cam("Canon", "Canon EOS-1D", "").areah.1 == 0 { add("CR2 double lines, stripes", cr2("Canon", "Canon EOS-1D", Cr2Kind::Id, ljpeg(w * 2, h / 2, 2, 12, &s), None, Some([n as u16, w1 as u16, w2 as u16]), &Cr2Wb::None, None, 8, true), { let mut e = Exp::cam(&c, w, h, data, [NAN; 4]); e.orient = 8; e }, false); } }
    for v2 in [false, true] { let (w, h) = (16usize, 4usize); let gh = if v2 { 2 } else { 1 };
      let c = cam("Canon", "Canon EOS 40D", ""); let off = if c.wb_offset != 0 { c.wb_offset } else { 63 };
      let lv = [2000u16, 1024, 1024, 1500];
      let yy = |r: usize, c: usize| 4000 + (mix(r, c, 9) % 3000) as u16;
      let cc = |r: usize, c: usize| (16300 + (mix(r, c, 10) % 200) as u16, 16350 + (mix(r, c, 11) % 90) as u16);
      let rows: Vec<Vec<(Vec<u16>, u16, u16)>> = (0..h).step_by(gh).map(|r| (0..w).step_by(2).map(|c| { let ys = if v2 { vec![yy(r, c), yy(r, c + 1), yy(r + 1, c), yy(r + 1, c + 1)] } else { vec![yy(r, c), yy(r, c + 1)] }; let k = cc(r, c); (ys, k.0, k.1) }).collect()).collect();
      let mut lj = Lj::new(15, w, h, 3, Huff::chain(2, 0)); lj.samp = if v2 { 0x22 } else { 0x21 };
      let mut b = lj.head(); b.extend(sraw(&lj, if v2 { 4 } else { 2 }, &rows).unwrap().jpeg()); b.extend([0xff, 0xd9]);
      let mut data = vec![0u16; w * h * 3];
      for r in 0..h { for k in 0..w { let (cb, cr) = cc(r / gh * gh, k & !1); data[(r * w + k) * 3..][..3].copy_from_slice(&sraw_rgb(yy(r, k), cb, cr, lv, if c.hint("40d_yuv") { 512 } else { 0 })); } }
      let mut cd = vec![7u16; off]; cd.extend(lv); cd.extend([9; 40]);
      let mut e = Exp::cam(&c, w, h, data, [2000.0, 1024.0, 1500.0, NAN]); e.cpp = 3; e.crops = [0; 4]; e.black = [0; 4]; e.white = [65535; 4];
      add(&format!("CR2 sRAW vertical={}", v2), cr2("Canon", "Canon EOS 40D", Cr2Kind::Id, b, Some((w, h)), None, &Cr2Wb::Color(cd), None, 0, false), e, false); }
    { let make = "Canon"; let model = "EOS D2000C"; if let Some(c) = Db::load().get(make, model, "") { let c = c.clone(); let (w, h) = ((c.crops[1] + c.crops[3] + c.areav.0 + c.areav.1 + 5) / 2 * 2, c.crops[0] + c.crops[2] + c.areah.0 + c.areah.1 + 4);
        if c.hint("linearization") { let raw = px(w, h, 12, 12); let t: Vec<u16> = (0..4096).map(|i| i * 4).collect(); let cv = Curve { t: t.clone() }; let mut rnd = raw[0] as u32; let data: Vec<u16> = raw.iter().map(|&x| cv.get(x as usize, &mut rnd)).collect();
        add("CR2 linearized", cr2(make, model, Cr2Kind::Cfa, ljpeg(w, h, 2, 12, &raw), None, None, &Cr2Wb::None, Some(&t), 0, true), Exp::cam(&c, w, h, data, [NAN; 4]), false); } } }
    // Leaf
    { let (w, h) = (6usize, 20usize); let s = px(w, h, 14, 13);
      let t = Huff::chain(2, 0);
      let mut lj = Lj::new(14, w / 2, h, 2, t.clone()); lj.tables = vec![(0, t.clone()), (1, Huff::flat(5))]; lj.sel = vec![0, 1]; lj.bug16 = true; lj.ids = vec![0, 1];
      let mut o = lj.head();
      for (i, st) in s.chunks(w * 8).enumerate() { if i > 0 { o.extend([0xff, 0xd0 + (((i - 1) % 8) as u8)]); } let mut l2 = lj.clone(); l2.h = st.len() / w; o.extend(l2.scan(st).unwrap().jpeg()); }
      o.extend([0xff, 0xd9]);
      add("MOS lossless JPEG", mos("Leaf", "Leaf Aptus 75", w, h, 99, o, Some([100, 50, 100, 80]), true), Exp::cam(&cam("Leaf", "Leaf Aptus 75", ""), w, h, s, mos_wb(Some([100, 50, 100, 80]))), false); }
    // Nikon compressed
    { let (w, h) = (8usize, 4usize); let t = 2;
      let (b, vals) = nef_scan(t, 0, [500, 510, 490, 505], w, h, &mut |r, k, _| nef_tok(t, (mix(r, k, 14) % 9) as i32 - 4).unwrap());
      let mut by = b.bytes(); by.extend(crate::bits::slack(8));
      let mut meta = vec![70u8, 48]; for x in [500u16, 510, 490, 505] { meta.extend(x.to_be_bytes()); } meta.extend([0; 2]);
      let cv = Curve { t: (0..4096).collect() }; let mut rnd = first24(&b);
      let data: Vec<u16> = vals.iter().map(|&x| cv.get(x as usize, &mut rnd)).collect();
      let mut n = by.len(); while n == w * h * 3 / 2 || n == w * h * 3 { n += 1; by.push(0); }
      let wb = NefWb::Plain([(3, 2), (5, 4)]);
      add("NEF compressed", nef("NIKON D300", w, h, 34713, 12, n, by, Some((true, meta)), &wb, 3, false, true), { let mut e = Exp::cam(&cam("NIKON CORPORATION", "NIKON D300", "12bit"), w, h, data, nef_wb(&wb)); e.orient = 3; e }, false); }
    // Pentax, Samsung, Olympus, Panasonic
    { let (w, h) = (6, 4); let (b, s) = pef_scan(&pef_codes(None), w, h, &mut |r, k, p| { let d = if r < 2 && k < 2 { 300 } else { (mix(r, k, 15) % 21) as i32 - 10 }; if p + d < 0 { 0 } else { d } }).unwrap(); let mut by = b.bytes(); by.extend(crate::bits::slack(8));
      add("PEF compressed", pef("PENTAX Corporation", "PENTAX K100D", w, h, 65535, 12, by, [300, 256, 256, 400], None, None, 0, 0, true, true), Exp::cam(&cam("PENTAX Corporation", "PENTAX K100D", ""), w, h, s, [300.0, 256.0, 400.0, NAN]), false); }
    { let (w, h) = (6, 4); let (b, s) = pef_scan(&srw2_codes(), w, h, &mut |r, k, p| { let d = if r < 2 && k < 2 { 300 } else { (mix(r, k, 16) % 21) as i32 - 10 }; if p + d < 0 { 0 } else { d } }).unwrap(); let mut by = b.bytes(); by.extend(crate::bits::slack(8));
      let lv = [500, 300, 300, 400];
      add("SRW2", srw("NX1000", w, h, 32772, 12, by, None, lv, [0; 4], 0, false), Exp::cam(&cam("SAMSUNG", "NX1000", ""), w, h, s, srw_wb(lv, [0; 4])), false); }
    { let (w, h) = (32usize, 4usize); let lv = [500, 256, 256, 400]; let mut o = vec![0u16; w * h]; let mut rows = Vec::new();
      for r in 0..h { let bl: Vec<Srw1Block> = (0..w / 16).map(|n| { let mut adj = [0i32; 16]; for i in 0..16 { adj[i] = (mix(n * 16 + i, r, 17) % 8) as i32 - 4 + if r < 2 && n == 0 { 0 } else { 0 }; } Srw1Block { up: r >= 2, ops: if r < 2 && n == 0 { [(3, 4); 4] } else { [(3, 4); 4] }, adj } }).collect(); match srw1_row(&mut o, w, r, &bl) { Some(b) => rows.push(b), None => break } }
      if rows.len() == h { srw1_swap(&mut o, w, h); let mut by = vec![0u8; 8]; let mut off = Vec::new(); for r in 0..h { off.extend((by.len() as u32).to_le_bytes()); by.extend(rows[r].msb32()); } by.extend(crate::bits::slack(8));
        add("SRW1", srw("NX1000", w, h, 32770, 12, by, Some(off), lv, [0; 4], 0, false), Exp::cam(&cam("SAMSUNG", "NX1000", ""), w, h, o, srw_wb(lv, [0; 4])), false); } }
    { let (w, h) = (32usize, 4usize); let lv = [500, 256, 256, 400]; let head = srw3_head(12, 0, w, h, 2048); let mut o = vec![0u16; w * h]; let mut rows = Vec::new();
      for r in 0..h { let bl: Vec<Srw3Block> = (0..w / 16).map(|n| { let mut d = [0i32; 16]; for i in 0..16 { d[i] = (mix(n * 16 + i, r, 18) % 8) as i32 - 4; } Srw3Block { scale: (0, 0), motion: Some(7), skip: false, flags: [(3, 4); 4], diff: d } }).collect(); match srw3_row(&mut o, w, r, 12, 0, 2048, &bl) { Some(b) => rows.push(b), None => break } }
      if rows.len() == h { add("SRW3", srw("NX1", w, h, 32773, 14, srw3_file(&head, &rows), None, lv, [0; 4], 0, false), Exp::cam(&cam("SAMSUNG", "NX1", ""), w, h, o, srw_wb(lv, [0; 4])), false); } }
    { let (w, h) = (8usize, 12usize); let s = calm(w, h, 2000, 5, 19); let b = orf_scan(w, h, &s, &|_, _| false).unwrap(); let mut by = vec![0x5a; 7]; by.extend(b.bytes()); by.extend(crate::bits::slack(4));
      if by.len() < w * h * 12 / 8 { let n = by.len() as u32; add("ORF compressed", orf("OLYMPUS CORPORATION", "E-M10MarkII", w, h, vec![n], by, OrfWb::Img2(450, 380), 1, false), { let mut e = Exp::cam(&cam("OLYMPUS CORPORATION", "E-M10MarkII", ""), w, h, s, orf_wb(&OrfWb::Img2(450, 380))); e.orient = 1; e }, false); } }
    for split in [true, false] { let (w, h) = (28usize, 20usize); let mut g = Vec::new(); let mut s = Vec::new();
      for n in 0..w * h / 14 { let (b, o) = pana_group(&mut |i, k| { let _ = k; let x = mix(n, i, 20); match x % 5 { 0 => 127, _ => 120 + (x >> 8) % 16 } }); g.push(b); s.extend(o.iter().cloned()); }
      let mut by = pana_layout(&g, split); if !split { by.extend([0xee; 4]); }
      if split || by.len() + 20 < w * h * 3 / 2 { let wb = PanaWb::Rb(500, 400); let e = { let mut e = Exp::cam(&cam("Panasonic", "DMC-FZ1000", pana_mode(w, h)), w, h, s, pana_wb(&wb)); e.orient = 1; e }; add(&format!("RW2 packed blocks split={}", split), rw2("Panasonic", "DMC-FZ1000", w, h, split, by, wb, 1, false), e, false); } }
    // a headerless dump
    if let Some(c) = Db::load().all.iter().filter(|c| c.filesize > 0 && !c.hint("12le_16bitaligned") && c.filesize * 8 / c.raw_width / c.raw_height == 10).min_by_key(|c| c.filesize) {
      let (w, h) = (c.raw_width, c.raw_height); let s = px(w, h, 10, 21); let mut p = p10_words16(&s);
      if p.len() <= c.filesize { p.resize(c.filesize, 0); let mut c2 = c.clone(); if &p[..2] != b"II" && &p[..2] != b"MM" { c2.hints.clear(); add("headerless", Doc::B(p), Exp::cam(&c2, w, h, s, [NAN; 4]), true); } } }
    v
}

pub fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }
/// the smallest image in which the masked area and the crop of a camera fit
pub fn size(c: &Cam) -> (usize, usize) {
    let w = (c.crops[1] + c.crops[3]).max(c.areav.0 + c.areav.1) + 6;
    let h = (c.crops[0] + c.crops[2]).max(c.areah.0 + c.areah.1) + 4;
    ((w + 1) / 2 * 2, (h + 1) / 2 * 2)
}
/// a plain file of this camera
pub fn plain(c: &Cam, o: Opt) -> Option<(Doc, Exp)> {
    let (mut w, mut h) = size(c);
    let (mk, md) = (&c.make[..], &c.model[..]);
    let fin = |mut e: Exp| { e.orient = o.orient; e };
    let s12 = |w: usize, h: usize| px(w, h, 12, 31);
    Some(match mk {
        "SONY" if md != "DSLR-A100" && md != "DSC-R1" && md != "DSC-F828" => {
            let s = px(w, h, 16, 31); let lv = [500, 256, 257, 400];
            (arw(&ArwP { model: leak(md), w, h, comp: 1, bps: 16, count: w * h * 2, curve: None, rggb: o.mbig, lv, key: 77, orient: o.orient }, w16(false, &s)), fin(Exp::cam(c, w, h, s, sony_wb(o.mbig, lv))))
        }
        "OLYMPUS IMAGING CORP." | "OLYMPUS CORPORATION" | "OLYMPUS OPTICAL CO.,LTD" => {
            let s = s12(w, h); let j: Vec<u16> = s.iter().map(|x| x << 4).collect();
            (orf(mk, md, w, h, vec![(w * h * 2) as u32], w16(o.big, &j), OrfWb::Mul(300, 400), o.orient, o.big), fin(Exp::cam(c, w, h, s, orf_wb(&OrfWb::Mul(300, 400)))))
        }
        "NIKON CORPORATION" if md != "NIKON D100" && (c.mode == "12bit" || c.mode == "14bit") => {
            let kw = NefWb::Plain([(3, 2), (5, 4)]);
            let (bps, s) = if c.mode == "12bit" { (12, s12(w, h)) } else { (14, px(w, h, 14, 31)) };
            let p = if bps == 14 { w16(o.big, &s) } else if o.big { p12be(&s) } else { p12le(&s) };
            (nef(md, w, h, 1, bps, p.len(), p, None, &kw, o.orient, o.big, o.mbig), fin(Exp::cam(c, w, h, s, nef_wb(&kw))))
        }
        "PENTAX Corporation" | "PENTAX" | "RICOH IMAGING COMPANY, LTD." => {
            let s = px(w, h, 16, 31);
            (pef(mk, md, w, h, 1, 16, w16(true, &s), [300, 256, 257, 400], None, None, 0, o.orient, o.big, o.mbig), fin(Exp::cam(c, w, h, s, [300.0, 256.0, 400.0, NAN])))
        }
        "SAMSUNG" => {
            let s = px(w, h, 14, 31); let lv = [500, 300, 301, 400];
            (srw(md, w, h, 32769, 14, w16(false, &s), None, lv, [1, 2, 3, 4], o.orient, o.big), fin(Exp::cam(c, w, h, s, srw_wb(lv, [1, 2, 3, 4]))))
        }
        "Panasonic" | "LEICA" if c.mode != "" => {
            // grow until the aspect ratio selects this mode
            let mut i = 0;
            while pana_mode(w, h) != c.mode { let r = w * 100 / h; let hi = match &c.mode[..] { "1:1" => 125, "4:3" => 145, "3:2" => 165, "16:9" => usize::MAX, _ => return None }; if r >= hi { h += 1; } else { w += 2; } i += 1; if i > 4000 { return None; } }
            let s = s12(w, h); let kw = PanaWb::Rb(500, 400);
            (rw2(mk, md, w, h, false, w16(false, &s.iter().map(|x| x << 4).collect::<Vec<_>>()), PanaWb::Rb(500, 400), o.orient, o.big), fin(Exp::cam(c, w, h, s, pana_wb(&kw))))
        }
        "FUJIFILM" if c.hints.is_empty() => {
            let s = px(w, h, 14, 31);
            (raf_new(md, w, h, Some(14), w16(false, &s), [256, 400, 500], o.orient, o.big), fin(Exp::cam(c, w, h, s, [400.0, 256.0, 500.0, NAN])))
        }
        "Phase One A/S" => {
            w = (w + 7) / 8 * 8;
            let s = calm(w, h, 100, 20, 17);
            let rows: Vec<Vec<u8>> = s.chunks(w).map(|r| { let mut b = iiq_row(w, r, &|g, _| if g == 0 { Some(9) } else { None }).unwrap(); b.pad(32, false); b.msb32() }).collect();
            let mut e = Exp::cam(c, w, h, s, [1.5, 1.0, 2.0, NAN]); e.black = [100; 4];
            (iiq(md, w, h, rows, [1.5, 1.0, 2.0], 400, 0, 0, o.orient), fin(e))
        }
        "Minolta Co., Ltd." | "KONICA MINOLTA" | "Konica Minolta Camera, Inc." => {
            let s = s12(w, h); let lv = [300, 256, 255, 400];
            let wb = if c.hint("swapped_wb") { [255.0, 300.0, 256.0, NAN] } else { [300.0, 256.0, 400.0, NAN] };
            (mrw(mk, md, w, h, o.big, &if o.big { p12be(&s) } else { w16(true, &s) }, lv, o.orient, 0), fin(Exp::cam(c, w, h, s, wb)))
        }
        "Canon" if c.hints.is_empty() && (md.starts_with("Canon EOS") || c.areav.1 > 0) => {
            let s = px(w, h, 14, 31);
            let off = if c.wb_offset != 0 { c.wb_offset } else { 63 };
            let mut t = vec![7u16; off]; t.extend([2000, 1024, 1025, 1500]); t.extend([9; 30]);
            (cr2(mk, md, Cr2Kind::Id, ljpeg(w, h, 2, 14, &s), Some((w, h)), None, &Cr2Wb::Color(t), None, o.orient, o.big), fin(Exp::cam(c, w, h, s, [2000.0, 1024.0, 1500.0, NAN])))
        }
        "Hasselblad" => {
            let (e, s) = hass(w, h, &|i| (mix(i, 1, 1) % 400) as i32 - 200);
            (tfr(md, w, h, e, [(1, 2), (1, 1), (2, 3)], o.orient, o.big), fin(Exp::cam(c, w, h, s, [2.0, 1.0, 1.5, NAN])))
        }
        "Leaf" if !c.hint("interlaced") => {
            let s = px(w, h, 16, 31);
            (mos(mk, md, w, h, 1, w16(o.big, &s), None, o.big), Exp::cam(c, w, h, s, [NAN; 4]))
        }
        _ => return None,
    })
}

struct Shared<T>(std::sync::OnceLock<T>);
// the contents are only ever used by one thread at a time
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
/// the same, built once (call it before the workers fork)
pub fn all_samples() -> &'static [Sample] { static S: Shared<Vec<Sample>> = Shared(std::sync::OnceLock::new()); S.0.get_or_init(samples) }
pub fn all_sites() -> &'static [Site] { static S: Shared<Vec<Site>> = Shared(std::sync::OnceLock::new()); S.0.get_or_init(sites) }
