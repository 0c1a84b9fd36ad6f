//! C03: uncompressed raws decode bit-exactly: every packing, every sample value in every slot of the packing, every position, all small sizes.
use harness::{camdb::*, fmt::*, run::*, tiffb::*};
use std::rc::Rc;

type Make = Box<dyn Fn(usize, usize, &[u16]) -> Option<(Doc, Exp)>>;
struct U { name: String, bits: u32, group: usize, gran: usize, wmin: usize, hmin: usize, sizes: Vec<(usize, usize)>, make: Make }

fn mix(a: usize, b: usize, s: usize) -> u32 { let mut x = (a as u32).wrapping_mul(0x9E3779B1) ^ (b as u32).wrapping_mul(0x85EBCA6B) ^ (s as u32).wrapping_mul(0xC2B2AE35); x ^= x >> 15; x = x.wrapping_mul(0x2C1B3C6D); x ^= x >> 12; x }

fn one(ctx: &mut Ctx, u: &U, w: usize, h: usize, s: &[u16], what: &str) {
    let (doc, e) = match (u.make)(w, h, s) { Some(x) => x, None => return };
    let bytes = doc.bytes();
    let desc = || format!("{} {}x{}: {}", u.name, w, h, what);
    ctx.begin(|| (desc(), bytes.clone()));
    ctx.transitions += s.len() as u64;
    match ctx.decode(&bytes) {
        Err(m) => ctx.fail("err", &desc(), &bytes, &format!("decoding failed: {}", m.replace('\n', " "))),
        Ok(i) => { ctx.outcome(hash(&i.data)); if let Err(m) = cmp_data(&i, &e) { ctx.fail("sample", &desc(), &bytes, &m); } }
    }
}

fn list() -> Vec<U> {
    let db = Rc::new(Db::load());
    let mut v: Vec<U> = Vec::new();
    fn add<F: Fn(usize, usize, &[u16]) -> Option<(Doc, Exp)> + 'static>(v: &mut Vec<U>, name: &str, bits: u32, group: usize, gran: usize, wmin: usize, hmin: usize, f: F) {
        v.push(U { name: name.into(), bits, group, gran, wmin, hmin, sizes: vec![], make: Box::new(f) });
    }
    let camx = { let db = db.clone(); move |mk: &str, md: &str, mode: &str, w: usize, h: usize, s: &[u16]| -> Exp { let mut c = db.cam(mk, md, mode); c.areah = (0, 0); c.areav = (0, 0); Exp::cam(&c, w, h, s.to_vec(), [NAN; 4]) } };
    let cx = Rc::new(camx);

    { let cx = cx.clone(); add(&mut v, "ARI 12-bit in 32-bit words", 12, 8, 4, 4, 1, move |w, h, s| if w * h % 8 == 0 { Some((ari(w, h, &p12_words32(s), [1.5, 1.0, 1.25], "ALEXA"), cx("ARRI", "ALEXA", "", w, h, s))) } else { None }); }
    let ap = |model: &'static str, w: usize, h: usize, comp: u32, bps: u16, count: usize| ArwP { model, w, h, comp, bps, count, curve: None, rggb: true, lv: [500, 256, 256, 400], key: 0x1234567, orient: 0 };
    { let cx = cx.clone(); add(&mut v, "ARW 16-bit", 16, 1, 1, 1, 1, move |w, h, s| Some((arw(&ap("DSLR-A300", w, h, 1, 16, w * h * 2), w16(false, s)), cx("SONY", "DSLR-A300", "", w, h, s)))); }
    for junk in [0u16, 0xc000] { let cx = cx.clone(); add(&mut v, &format!("ARW DSC-R1 14-bit big-endian unused bits {:x}", junk), 14, 1, 1, 1, 1, move |w, h, s| { let j: Vec<u16> = s.iter().map(|x| x | junk).collect(); Some((arw(&ap("DSC-R1", w, h, 1, 16, w * h * 2), w16(true, &j)), cx("SONY", "DSC-R1", "", w, h, s))) }); }
    { let cx = cx.clone(); add(&mut v, "ARW 12-bit little-endian packed", 12, 2, 2, 2, 1, move |w, h, s| Some((arw(&ap("DSLR-A300", w, h, 32767, 12, w * h * 12 / 8), p12le(s)), cx("SONY", "DSLR-A300", "", w, h, s)))); }
    for (sel, k1, k2) in [(0u8, 0u32, 77u32), (5, 0xdeadbeef, 0x80000001), (255, 1, 0)] { let cx = cx.clone(); add(&mut v, &format!("SRF encrypted key slot {}", sel), 16, 1, 1, 1, 1, move |w, h, s| Some((srf(w, h, s, k1, k2, sel), cx("SONY", "DSC-F828", "", w, h, s)))); }
    for cpp in [1usize, 3] {
        for big in [false, true] { add(&mut v, &format!("DNG 16-bit big={} cpp={}", big, cpp), 16, 1, 1, 1, 1, move |w, h, s| Some((dng(w, h, cpp as u16, 16, w16(big, s), big), dng_exp(w, h, cpp, s.to_vec())))); }
        add(&mut v, &format!("DNG 12-bit cpp={}", cpp), 12, 2, 2, 2, 1, move |w, h, s| Some((dng(w, h, cpp as u16, 12, p12be(s), cpp == 3), dng_exp(w, h, cpp, s.to_vec()))));
        add(&mut v, &format!("DNG 10-bit cpp={}", cpp), 10, 4, 4, 4, 1, move |w, h, s| Some((dng(w, h, cpp as u16, 10, p10be(s), cpp == 3), dng_exp(w, h, cpp, s.to_vec()))));
    }
    let lin: Vec<(&str, Vec<u16>)> = vec![("identity", (0..256).collect()), ("times 257", (0..256u32).map(|x| (x * 257) as u16).collect()), ("quadratic", (0..256u32).map(|x| (x * x) as u16).collect()),
        ("flat then steep", (0..256u32).map(|x| if x < 200 { 5 } else { (x - 200) as u16 * 1100 }).collect()), ("zero", vec![0; 256]), ("descending", (0..256u32).map(|x| 65535 - (x * 250) as u16).collect()), ("saw", (0..256u32).map(|x| ((x * 40503) & 0xffff) as u16).collect())];
    for (n, t) in lin.clone() { for big in [false, true] {
        let t2 = t.clone();
        add(&mut v, &format!("DNG 8-bit curve {} big={}", n, big), 8, 1, 1, 1, 1, move |w, h, s| { let b: Vec<u8> = s.iter().map(|&x| x as u8).collect(); let mut d = dng(w, h, 1, 8, b.clone(), big); dng_raw(&mut d).put(0xc618, V::S(t2.clone())); Some((d, dng_exp(w, h, 1, curve8(w, &b, &t2)))) });
    } }
    for (n, t) in lin.into_iter().take(4) {
        let cx = cx.clone();
        let md = "EOSDCS1B        FILE VERSION 3";
        add(&mut v, &format!("DCS 8-bit curve {}", n), 8, 1, 1, 1001, 1, move |w, h, s| { let b: Vec<u8> = s.iter().map(|&x| x as u8).collect(); let big = t[255] > 300; Some((dcs(md, w, h, b.clone(), &t, big), cx("KODAK", md, "", w, h, &curve8(w, &b, &t)))) });
    }
    for ctl in [0u8, 0xff] { let cx = cx.clone(); add(&mut v, &format!("ERF 12-bit with control bytes {:x}", ctl), 12, 10, 2, 2, 1, move |w, h, s| Some((erf(w, h, p12_control(w, s, true, ctl), 300, 400, 0, true), cx("SEIKO EPSON CORP.", "R-D1", "", w, h, s)))); }
    for big in [false, true] { let cx = cx.clone(); add(&mut v, &format!("KDC 12-bit big={}", big), 12, 2, 2, 82, 71, move |w, h, s| { let md = "KODAK P880 ZOOM DIGITAL CAMERA"; Some((kdc(md, w, h, p12be(s), KdcWb::F(400, 256, 300), None, 0, big), cx("EASTMAN KODAK COMPANY", md, "", w, h, s))) }); }
    for pos in [0x100u32, 0x14fff, 0x15000, 0x20000] { let cx = cx.clone(); add(&mut v, &format!("KDC 12-bit fixed position, declared {:x}", pos), 12, 2, 2, 82, 71, move |w, h, s| { let md = "KODAK EASYSHARE Z1015 IS DIGITAL CAMERA"; Some((kdc(md, w, h, p12be(s), KdcWb::F(400, 256, 300), Some(pos), 0, false), cx("EASTMAN KODAK COMPANY", md, "", w, h, s))) }); }
    for big in [false, true] { let cx = cx.clone(); add(&mut v, &format!("MEF 12-bit big={}", big), 12, 2, 2, 2, 1, move |w, h, s| Some((mef(w, h, p12be(s), 0, big), cx("Mamiya-OP Co.,Ltd.", "MAMIYA ZD", "", w, h, s)))); }
    { let cx = cx.clone(); add(&mut v, "MRW packed", 12, 2, 2, 2, 1, move |w, h, s| Some((mrw("KONICA MINOLTA", "DYNAX 5D", w, h, true, &p12be(s), [300, 256, 256, 400], 0, 0), cx("KONICA MINOLTA", "DYNAX 5D", "", w, h, s)))); }
    for junk in [0u16, 0xf000] { let cx = cx.clone(); add(&mut v, &format!("MRW unpacked unused bits {:x}", junk), 12, 1, 1, 1, 1, move |w, h, s| { let j: Vec<u16> = s.iter().map(|x| x | junk).collect(); Some((mrw("Minolta Co., Ltd.", "DiMAGE 7", w, h, false, &w16(true, &j), [300, 256, 256, 400], 0, 1), cx("Minolta Co., Ltd.", "DiMAGE 7", "", w, h, s))) }); }
    let rb = [(3u32, 2u32), (5, 4)];
    { let cx = cx.clone(); add(&mut v, "NRW 12-bit", 12, 2, 2, 1002, 1, move |w, h, s| Some((nrw("COOLPIX P330", w, h, p12be(s), &NrwWb::R(1.5, 1.25, rb), 0, true, true), cx("NIKON", "COOLPIX P330", "", w, h, s)))); }
    { let cx = cx.clone(); add(&mut v, "NRW interlaced", 12, 2, 2, 1002, 1, move |w, h, s| Some((nrw("E5400", w, h, p12_fields(w, h, s, 0), &NrwWb::R(1.5, 1.25, rb), 0, true, true), cx("NIKON", "E5400", "", w, h, s)))); }
    { let cx = cx.clone(); add(&mut v, "NRW 32-bit words", 12, 8, 8, 1008, 1, move |w, h, s| Some((nrw("COOLPIX P6000", w, h, p12_words32(s), &NrwWb::R(1.5, 1.25, rb), 0, true, true), cx("NIKON", "COOLPIX P6000", "", w, h, s)))); }
    // RAF
    for (n, bits, big) in [("12-bit", 12u32, false), ("14-bit", 14, false), ("14-bit, unused bits set", 15, false), ("16-bit", 16, false), ("16-bit", 16, true), ("16-bit by default", 17, false)] {
        let cx = cx.clone();
        let md = "GFX 50S";
        let (gr, sb) = if bits == 12 { (2, 12) } else if bits < 16 { (1, 14) } else { (1, 16) };
        add(&mut v, &format!("RAF {} big={}", n, big), sb, gr, gr, gr, 1, move |w, h, s| {
            let p = match bits { 12 => p12le(s), 14 => w16(false, s), 15 => w16(false, &s.iter().map(|x| x | 0xc000).collect::<Vec<_>>()), _ => w16(big, s) };
            Some((raf_new(md, w, h, match bits { 12 => Some(12), 14 | 15 => Some(14), 16 => Some(16), _ => None }, p, [256, 400, 500], 0, big), cx("FUJIFILM", md, "", w, h, s)))
        });
    }
    { let cx = cx.clone(); add(&mut v, "RAF 32-bit words", 12, 8, 8, 8, 1, move |w, h, s| Some((raf_new("FinePix HS10 HS11", w, h, Some(12), p12_words32(s), [256, 400, 500], 0, false), cx("FUJIFILM", "FinePix HS10 HS11", "", w, h, s)))); }
    for md in db.all.iter().filter(|c| c.make == "FUJIFILM" && c.mode == "" && (c.hint("fuji_rotation") || c.hint("fuji_rotation_alt") || c.hint("double_width"))).map(|c| c.model.clone()) {
        let old = true;
        for c in db.all.iter().filter(|c| c.make == "FUJIFILM" && c.model == md && c.mode == "") {
            let c = c.clone();
            let (cw, chh) = (c.crops[1] + c.crops[3], c.crops[0] + c.crops[2]);
            let dbl = c.hint("double_width");
            let big = md.len() % 2 == 0;
            add(&mut v, &format!("RAF {} (rotation={} alt={} two rows={})", md, c.hint("fuji_rotation"), c.hint("fuji_rotation_alt"), dbl), 16, 1, 1, cw + 2, chh + 2, move |w, h, s| {
                let mut p = Vec::new();
                if dbl { for r in s.chunks(w) { p.extend(w16(false, r)); p.extend(vec![0xddu8; w * 2]); } } else { p = w16(big, s); }
                if p.len() < 2 || &p[..2] == b"II" || &p[..2] == b"MM" { return None; }
                let d = if old { raf_old(&c.model, w, h, p, [256, 300, 256, 400], 0, big) } else { raf_new(&c.model, w, h, Some(16), p, [256, 300, 400], 0, big) };
                let mut e = Exp::cam(&c, w, h, s.to_vec(), [NAN; 4]);
                let (x0, y0) = (c.crops[3], c.crops[0]);
                let (nw, nh) = (w - cw, h - chh);
                if c.hint("fuji_rotation") || c.hint("fuji_rotation_alt") {
                    // the sensor grid is turned by 45 degrees (dcraw's layouts)
                    let alt = c.hint("fuji_rotation_alt");
                    let rw = if alt { nh + nw / 2 } else { nw + nh / 2 };
                    if rw < 2 || nw % 2 == 1 && alt { return None; }
                    let mut o = vec![0u16; rw * (rw - 1)];
                    for r in 0..nh { for k in 0..nw {
                        let (rr, cc) = if alt { (nw / 2 + r - 1 - k / 2, r + (k + 1) / 2) } else { (nw - 1 - k + r / 2, k + (r + 1) / 2) };
                        if cc >= rw || rr >= rw - 1 { return None; }
                        o[rr * rw + cc] = s[(r + y0) * w + k + x0];
                    } }
                    e.w = rw; e.h = rw - 1; e.data = o;
                }
                Some((d, e))
            });
        }
    }
    // ORF
    for big in [false, true] { for junk in [0u16, 15] { let cx = cx.clone(); add(&mut v, &format!("ORF left-aligned big={} unused bits {:x}", big, junk), 12, 1, 1, 1, 1, move |w, h, s| { let j: Vec<u16> = s.iter().map(|x| x << 4 | junk).collect(); Some((orf("OLYMPUS OPTICAL CO.,LTD", "C5050Z", w, h, vec![(w * h * 2) as u32], w16(big, &j), OrfWb::Mul(300, 400), 0, big), cx("OLYMPUS OPTICAL CO.,LTD", "C5050Z", "", w, h, s))) }); } }
    for ctl in [0u8, 0xff] { let cx = cx.clone(); add(&mut v, &format!("ORF control bytes {:x}", ctl), 12, 10, 2, 10, 1, move |w, h, s| { let p = p12_control(w, s, false, ctl); let n = p.len(); if n >= w * h / 10 * 16 && n < w * h * 2 { Some((orf("OLYMPUS IMAGING CORP.", "E-330", w, h, if h % 2 == 0 { vec![n as u32 / 2, (n - n / 2) as u32] } else { vec![n as u32] }, p, OrfWb::Mul(300, 400), 0, false), cx("OLYMPUS IMAGING CORP.", "E-330", "", w, h, s))) } else { None } }); }
    { let cx = cx.clone(); add(&mut v, "ORF interlaced", 12, 2, 2, 4, 1, move |w, h, s| { let n = w * h * 3 / 2; if n < w * h / 10 * 16 && w < 3500 { Some((orf("OLYMPUS OPTICAL CO.,LTD", "C5050Z", w, h, vec![n as u32], p12_fields(w, h, s, 2048), OrfWb::Mul(300, 400), 0, false), cx("OLYMPUS OPTICAL CO.,LTD", "C5050Z", "", w, h, s))) } else { None } }); v.last_mut().unwrap().sizes = vec![(64, 42), (64, 43), (256, 11), (1024, 3), (3498, 2), (512, 16)]; }
    { let cx = cx.clone(); add(&mut v, "ORF 32-bit words", 12, 8, 8, 3504, 1, move |w, h, s| { let n = w * h * 3 / 2; if n < w * h / 10 * 16 { Some((orf("OLYMPUS CORPORATION", "E-M10MarkII", w, h, vec![n as u32], p12_words32(s), OrfWb::Mul(300, 400), 0, true), cx("OLYMPUS CORPORATION", "E-M10MarkII", "", w, h, s))) } else { None } }); }
    // RW2
    { let cx = cx.clone(); let db = db.clone(); add(&mut v, "RW2 left-aligned", 12, 1, 1, 1, 1, move |w, h, s| { let m = pana_mode(w, h); db.get("LEICA", "DIGILUX 2", m)?; Some((rw2("LEICA", "DIGILUX 2", w, h, false, w16(false, &s.iter().map(|x| x << 4 | 9).collect::<Vec<_>>()), PanaWb::Rb(300, 400), 0, false), cx("LEICA", "DIGILUX 2", m, w, h, s))) }); }
    { let cx = cx.clone(); let db = db.clone(); add(&mut v, "RW2 control bytes", 12, 10, 2, 10, 2, move |w, h, s| { let m = pana_mode(w, h); db.get("Panasonic", "DMC-LX1", m).or(db.get("Panasonic", "DMC-FZ30", m))?; let md = if db.get("Panasonic", "DMC-LX1", m).is_some() { "DMC-LX1" } else { "DMC-FZ30" }; let p = p12_control(w, s, false, 0x5a); if p.len() + 40 < w * h * 2 { Some((rw2("Panasonic", md, w, h, false, p, PanaWb::Rb(300, 400), 0, false), cx("Panasonic", md, m, w, h, s))) } else { None } }); v.last_mut().unwrap().sizes = vec![(20, 15), (30, 20), (50, 40), (18, 12), (40, 30)]; }
    // SRW
    for (n, md, comp, bps, junk, bits) in [("12-bit unpacked", "NX1", 32769u32, 12u16, 0u16, 12u32), ("12-bit unpacked, unused bits set", "NX1", 32769, 12, 0xf000, 12), ("14-bit unpacked", "NX1", 32769, 14, 0, 14), ("14-bit unpacked, unused bits set", "NX1", 32769, 14, 0xc000, 14), ("14-bit 32770", "NX1", 32770, 14, 0, 14), ("12-bit packed", "NX10", 32770, 12, 1, 12), ("12-bit packed little-endian", "EX1", 32770, 12, 2, 12)] {
        let cx = cx.clone(); let db = db.clone();
        let pk = junk == 1 || junk == 2;
        add(&mut v, &format!("SRW {}", n), bits, if pk { 2 } else { 1 }, if pk { 2 } else { 1 }, 2, 1, move |w, h, s| {
            let lehint = db.cam("SAMSUNG", md, "").hint("little_endian");
            let p = if pk { if lehint { p12le(s) } else { p12be(s) } } else { w16(false, &s.iter().map(|x| x | junk).collect::<Vec<_>>()) };
            Some((srw(md, w, h, comp, bps, p, None, [500, 300, 300, 400], [0; 4], 0, h % 2 == 0), cx("SAMSUNG", md, "", w, h, s)))
        });
    }
    for big in [false, true] {
        { let cx = cx.clone(); add(&mut v, &format!("PEF 16-bit big={}", big), 16, 1, 1, 1, 1, move |w, h, s| Some((pef("PENTAX Corporation", "PENTAX *ist D", w, h, 1, 16, w16(true, s), [300, 256, 256, 400], None, None, 0, 0, big, big), cx("PENTAX Corporation", "PENTAX *ist D", "", w, h, s)))); }
        { let cx = cx.clone(); add(&mut v, &format!("PEF 12-bit big={}", big), 12, 2, 2, 2, 1, move |w, h, s| Some((pef("PENTAX Corporation", "PENTAX *ist D", w, h, 32773, 12, p12be(s), [300, 256, 256, 400], None, None, 0, 0, big, big), cx("PENTAX Corporation", "PENTAX *ist D", "", w, h, s)))); }
        { let cx = cx.clone(); add(&mut v, &format!("MOS 16-bit big={}", big), 16, 1, 1, 1, 1, move |w, h, s| Some((mos("Leaf", "Leaf Aptus 75", w, h, 1, w16(big, s), Some([100, 50, 100, 80]), big), cx("Leaf", "Leaf Aptus 75", "", w, h, s)))); }
        for (bits, junk) in [(12u16, 0u16), (14, 0), (14, 0xc000)] { for comp in [1u32, 34713] {
            if comp == 34713 && bits == 14 { continue; } // the packed size test does not fit unpacked 14-bit data
            let cx = cx.clone();
            let md = "NIKON D300";
            add(&mut v, &format!("NEF {}-bit big={} compression {} unused bits {:x}", bits, big, comp, junk), bits as u32, if bits == 12 { 2 } else { 1 }, if bits == 12 { 2 } else { 1 }, 2, 1, move |w, h, s| {
                let p = if bits == 12 { if big { p12be(s) } else { p12le(s) } } else { w16(big, &s.iter().map(|x| x | junk).collect::<Vec<_>>()) };
                let n = p.len();
                Some((nef(md, w, h, comp, bits, n, p, None, &NefWb::Plain([(2, 1), (3, 2)]), 0, big, !big), cx("NIKON CORPORATION", md, &format!("{}bit", bits), w, h, s)))
            });
        } }
    }
    { let cx = cx.clone(); add(&mut v, "NEF D100 control bytes, fixed width", 12, 10, 3040, 3040, 1, move |w, h, s| if w == 3040 { Some((nef("NIKON D100", 3008, h, 1, 12, w * h * 3 / 2, p12_control(w, s, true, 0), None, &NefWb::Plain([(2, 1), (3, 2)]), 0, true, true), cx("NIKON CORPORATION", "NIKON D100", "12bit", w, h, s))) } else { None }); }
    { let cx = cx.clone(); add(&mut v, "CRW Pro70 10-bit in 16-bit words", 10, 8, 1552, 1552, 1024, move |w, h, s| if (w, h) == (1552, 1024) { Some((ciff(&[ciff_names("Canon", "Canon PowerShot Pro70")], &p10_words16(s)), cx("Canon", "Canon PowerShot Pro70", "", w, h, s))) } else { None }); }
    // headerless dumps, recognised by their exact size
    for c in db.all.iter().filter(|c| c.filesize > 0) {
        let c = c.clone();
        let (w0, h0) = (c.raw_width, c.raw_height);
        let bits = c.filesize * 8 / w0 / h0;
        let al = c.hint("12le_16bitaligned");
        add(&mut v, &format!("naked {} {} {} bytes", c.make, c.model, c.filesize), if al { 12 } else { bits as u32 }, if al { 2 } else if bits == 10 { 8 } else { 4 }, w0, w0, h0, move |w, h, s| {
            if (w, h) != (w0, h0) { return None; }
            let mut p = if al { p12_rows16(w, s) } else if bits == 10 { p10_words16(s) } else { p12_words16(s) };
            if p.len() > c.filesize { return None; }
            p.resize(c.filesize, 0);
            if &p[0..2] == b"II" || &p[0..2] == b"MM" { return None; }
            let mut c2 = c.clone(); c2.areah = (0, 0); c2.areav = (0, 0);
            Some((Doc::B(p), Exp::cam(&c2, w, h, s.to_vec(), [NAN; 4])))
        });
    }
    v
}

/// sizes of 16 bits only
const NARROW: &[&str] = &["MRW", "RAF", "RW2"];
fn jobs() -> Vec<Job> {
    let us: Vec<Rc<U>> = list().into_iter().map(Rc::new).collect();
    let mut v = Vec::new();
    for u in us {
        let cpp = if u.name.contains("cpp=3") { 3 } else { 1 };
        let fixed = u.gran > 1000;
        let big = u.wmin > 70;
        // sizes with position-dependent samples
        { let u = u.clone(); v.push(job(format!("sizes: {}", u.name), move |ctx: &mut Ctx| {
            let mut sz: Vec<(usize, usize)> = u.sizes.clone();
            if fixed { for h in 0..if u.hmin > 1 { 1 } else { 4 } { sz.push((u.wmin, u.hmin + h)); } }
            else {
                let nw = if big { q(6, 40) } else { q(48 / u.gran.min(8), 160 / u.gran.min(8)) };
                let nh = if big { q(4, 9) } else { q(7, 17) };
                for i in 0..nw { for h in 0..nh { sz.push((u.wmin.next_multiple_of(u.gran) + i * u.gran, u.hmin + h)); } }
            }
            let mask = (1u32 << u.bits) - 1;
            for (w, h) in sz { for seed in 0..q(2, 4) {
                ctx.states += 1;
                let s: Vec<u16> = (0..w * h * cpp).map(|i| (mix(i / (w * cpp), i % (w * cpp), seed) & mask) as u16).collect();
                one(ctx, &u, w, h, &s, &format!("samples that differ by position, set {}", seed));
            } }
            ctx.sample(format!("{} {}x{}", u.name, u.wmin, u.hmin));
        })); }
        // sizes of real cameras and beyond 65535 columns or rows
        if !fixed { let u = u.clone(); v.push(job(format!("large images: {}", u.name), move |ctx: &mut Ctx| {
            let mask = (1u32 << u.bits) - 1;
            let g = u.gran.max(4);
            let turned = u.name.contains("alt=");
            for (n, (w, h)) in [(8288usize, 3usize), (4, 8301), (5616, 3744), (66_000, 2), (4, 65_600), (33_000, 40)].iter().cloned().enumerate() {
                if turned && n != 2 { continue; }
                if n >= 3 && NARROW.iter().any(|x| u.name.starts_with(x)) || n == 2 && u.name.starts_with("SRF") { continue; }
                let (w, h) = (w.max(u.wmin).next_multiple_of(g).next_multiple_of(u.gran), h.max(u.hmin));
                let (w, h) = if turned { (1500, 1100) } else { (w, h) };
                if w > 70_000 { continue; }
                ctx.states += 1;
                let s: Vec<u16> = (0..w * h * cpp).map(|i| (mix(i / (w * cpp), i % (w * cpp), n) & mask) as u16).collect();
                one(ctx, &u, w, h, &s, "samples that differ by position");
            }
        })); }
        // every value in every slot of the packing group, next to its complement
        { let u = u.clone(); v.push(job(format!("values: {}", u.name), move |ctx: &mut Ctx| {
            let mask = ((1u32 << u.bits) - 1) as u16;
            let g = u.group;
            let w = u.wmin.max(g).next_multiple_of(u.gran);
            let rows = ((g << u.bits) + w * cpp - 1) / (w * cpp);
            let h = if fixed && u.hmin > 1 { u.hmin } else { u.hmin.max(rows).min(60_000) };
            let (w, h) = if u.name.contains("alt=") { (u.wmin + 256, u.hmin + 256) } else { (w, h) };
            // unpacked 16-bit samples of narrow files need a wider image to show every value
            let (w, h) = if !fixed && w * cpp * h < (g << u.bits) { (w * 4, h) } else { (w, h) };
            let slots: Vec<usize> = if w * h > 2_000_000 && !thorough() { vec![0, g - 1] } else { (0..g).collect() };
            for slot in slots { ctx.states += 1; for inv in 0..2 {
                if g == 1 && inv == 1 && cpp == 1 { continue; }
                let s: Vec<u16> = (0..w * h * cpp).map(|i| { let x = ((i / g) & mask as usize) as u16; if (i % g == slot) != (inv == 1) { x } else { !x & mask } }).collect();
                one(ctx, &u, w, h, &s, &format!("slot {} sweeps all values, the others their complement{}", slot, if inv == 1 { " (inverted)" } else { "" }));
            } }
        })); }
        // a single sample anywhere stays where it is
        if !big { let u = u.clone(); v.push(job(format!("impulses: {}", u.name), move |ctx: &mut Ctx| {
            let mask = ((1u32 << u.bits) - 1) as u16;
            let w = u.wmin.max(q(8, 20)).max(u.group).next_multiple_of(u.gran);
            let slow = u.name.starts_with("SRF");
            let hs = u.hmin;
            for h in if slow { vec![2] } else if hs > 1 { vec![hs + 1, hs + 2] } else { q(vec![3, 4], vec![1, 2, 3, 4, 5, 6]) } { for p in 0..w * h * cpp {
                ctx.states += 1;
                for bits in [mask, 1, 1 << (u.bits - 1)] { let mut s = vec![0u16; w * h * cpp]; s[p] = bits; one(ctx, &u, w, h, &s, &format!("single sample {} at position {}", bits, p)); if slow { break; } }
                let mut s = vec![mask; w * h * cpp]; s[p] = 0;
                one(ctx, &u, w, h, &s, &format!("single zero at position {}", p));
            } }
        })); }
    }
    v
}
fn main() {
    run_main(Spec::new("C03", "about 90 format/packing/byte-order variants; every sample value in every slot of the packing group (with complementary neighbours); position-dependent samples at every small width and height of the format's granularity; single samples at every position of small images; headerless dumps at their exact size; images of camera size and beyond 65535 columns or rows",
        &["image widths are the multiples of the packing group that the cameras of the format use", "curve-coded 8-bit samples include the library's documented deterministic dither"]), jobs)
}
