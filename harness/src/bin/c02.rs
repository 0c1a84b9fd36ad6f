//! C02: whatever geometry a file declares, a decoded image is complete and has the declared size.
use harness::{camdb::*, chk::mix, fmt::*, lj::*, run::*, samples::*, tiffb::*};

/// what the file declares: (width, height, components); None where the format fixes or derives it otherwise
type Want = (Option<usize>, Option<usize>, Option<usize>);
fn verdict(w: usize, h: usize, cpp: usize, len: usize, want: &Want) -> Option<String> {
    if w.checked_mul(h).and_then(|x| x.checked_mul(cpp)) != Some(len) { return Some(format!("the image says {}x{} with {} components but holds {} samples", w, h, cpp, len)); }
    if let Some(x) = want.0 { if x != w { return Some(format!("width is {}, the file declares {}", w, x)); } }
    if let Some(x) = want.1 { if x != h { return Some(format!("height is {}, the file declares {}", h, x)); } }
    if let Some(x) = want.2 { if x != cpp { return Some(format!("{} components per pixel, the file stores {}", cpp, x)); } }
    None
}
fn one(ctx: &mut Ctx, bytes: &[u8], want: Want, what: &dyn Fn() -> String) -> bool {
    ctx.begin(|| (what(), bytes.to_vec()));
    ctx.states += 1; ctx.transitions += 1;
    match ctx.decode(bytes) {
        Err(_) => { ctx.outcome(1); false }
        Ok(i) => {
            ctx.outcome(hash(&(i.width, i.height, i.cpp)));
            if let Some(m) = verdict(i.width, i.height, i.cpp, i.data.len(), &want) { ctx.fail("shape", &what(), bytes, &m); }
            true
        }
    }
}
fn tail(kind: usize, n: usize) -> Vec<u8> { match kind { 0 => vec![], 1 => vec![0; n], 2 => vec![0xff; n], _ => (0..n).map(|i| mix(i, 3, 77) as u8).collect() } }
fn r32(b: &[u8], at: usize, big: bool) -> u32 { let x = [b[at], b[at + 1], b[at + 2], b[at + 3]]; if big { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) } }
fn p32(b: &mut [u8], at: usize, big: bool, v: u32) { b[at..at + 4].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() }); }

/// where a sample file declares its width and height
struct Decl { bytes: Vec<u8>, fields: Vec<Field>, wpos: (usize, bool), hpos: (usize, bool), w0: usize, h0: usize, size: usize }
fn declared(s: &Sample) -> Option<Decl> {
    let (bytes, fields) = s.doc.fields();
    let e = &s.exp;
    for (tw, th) in [(0x100u16, 0x101u16), (0x2, 0x3), (0xf001, 0xf002), (0xfd00, 0xfd01)] {
        // the directory of the raw is the one whose values make the expected size
        let find = |t: u16, want: &dyn Fn(usize) -> bool| fields.iter().filter(|f| f.what == format!("value of {:04x}", t)).find(|f| want(r32(&bytes, f.pos, f.big) as usize)).map(|f| (f.pos, f.big));
        let wp = find(tw, &|x| x == e.w || (tw == 0xfd00 && x + 80 == e.w));
        let hp = find(th, &|x| x == e.h || (th == 0xfd01 && x + 70 == e.h) || (s.name == "ARW1" && x + 8 == e.h));
        if let (Some(wpos), Some(hpos)) = (wp, hp) { let (w0, h0) = (r32(&bytes, wpos.0, wpos.1) as usize, r32(&bytes, hpos.0, hpos.1) as usize); let short = r32(&bytes, wpos.0 - 8, wpos.1) & if wpos.1 { 0xffff } else { 0xffff0000 } == if wpos.1 { 3 } else { 3 << 16 }; return Some(Decl { bytes, fields, wpos, hpos, w0, h0, size: if short { 2 } else { 4 } }); }
    }
    if s.name.starts_with("ARI") { return Some(Decl { bytes, fields, wpos: (20, false), hpos: (24, false), w0: e.w, h0: e.h, size: 4 }); }
    if s.name.starts_with("MRW") { let p = bytes.windows(4).position(|x| x == b"\0PRD").unwrap(); return Some(Decl { bytes, fields, hpos: (p + 16, true), wpos: (p + 18, true), w0: e.w, h0: e.h, size: 2 }); }
    if s.name.starts_with("IIQ") {
        let (mut wp, mut hp) = (0, 0);
        for i in (8..bytes.len() - 15).step_by(1) { if r32(&bytes, i + 4, false) == 4 && r32(&bytes, i + 8, false) == 4 { match r32(&bytes, i, false) { 0x108 => wp = i + 12, 0x109 => hp = i + 12, _ => {} } } }
        return Some(Decl { bytes, fields, wpos: (wp, false), hpos: (hp, false), w0: e.w, h0: e.h, size: 4 });
    }
    if s.name.starts_with("CRW") {
        let p = bytes.windows(6).position(|x| x[0] == 34 && x[1] == 0 && x[2..4] == (e.w as u16).to_le_bytes() && x[4..6] == (e.h as u16).to_le_bytes())?;
        return Some(Decl { bytes, fields, wpos: (p + 2, false), hpos: (p + 4, false), w0: e.w, h0: e.h, size: 2 });
    }
    None
}
fn put(b: &mut [u8], at: (usize, bool), size: usize, v: u32) { if size == 4 { p32(b, at.0, at.1, v) } else { b[at.0..at.0 + 2].copy_from_slice(&if at.1 { (v as u16).to_be_bytes() } else { (v as u16).to_le_bytes() }) } }
/// what decoding must give when the declared size is (w,h); the name tells the format
fn want(s: &Sample, d: &Decl, w: usize, h: usize) -> Want {
    let e = &s.exp;
    let n = &s.name[..];
    // Canon takes the size from the coded frame unless it is an sRAW
    if n.starts_with("CR2") && !n.contains("sRAW") { return (Some(e.w), Some(e.h), Some(1)); }
    // these recognise the raw directory by its width
    if (n.starts_with("NRW") || n.starts_with("DCS")) && w <= 1000 { return (None, None, Some(e.cpp)); }
    // Sony's first compression adds eight rows, and is what is chosen when the strip size does not fit
    if n.starts_with("ARW") && n != "ARW rggb=true key 1234567" && n != "ARW rggb=false key 1234567" {
        let bps = if n == "ARW2" { 8 } else { 12 };
        let count = d.fields.iter().find(|f| f.what == "value of 0117").map(|f| r32(&d.bytes, f.pos, f.big) as usize).unwrap();
        return (Some(w), Some(if w * h * bps != count * 8 { h + 8 } else { h }), Some(1));
    }
    let dw = e.w as i64 - d.w0 as i64; let dh = e.h as i64 - d.h0 as i64;
    // small Nikon raws are those whose strip is three bytes per pixel
    if n.starts_with("NEF") {
        let count = d.fields.iter().find(|f| f.what == "value of 0117").map(|f| r32(&d.bytes, f.pos, f.big) as usize).unwrap();
        if w * h * 3 == count { return (Some(w), Some(h), None); }
    }
    (Some((w as i64 + dw) as usize), Some((h as i64 + dh) as usize), Some(e.cpp))
}
/// position of the lossless JPEG frame header
fn sofs(b: &[u8]) -> Vec<usize> { (0..b.len().saturating_sub(20)).filter(|&i| b[i] == 0xff && b[i + 1] == 0xd8 && b[i + 2] == 0xff).filter_map(|i| (i + 2..(i + 400).min(b.len() - 12)).find(|&j| b[j] == 0xff && b[j + 1] == 0xc3)).collect() }
const GEO: &[&str] = &["0002", "0003", "0100", "0101", "0102", "0106", "0111", "0115", "0117", "0118", "0142", "0143", "0144", "014a", "0003", "c640", "c5d8", "f001", "f002", "f003", "f007", "fd00", "fd01", "fd04", "8606", "a010", "00fe", "828e"];

fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();
    for (k, name, heavy) in all_samples().iter().enumerate().filter(|(_, s)| !s.heavy && declared(s).is_some()).map(|(k, s)| (k, s.name.clone(), s.exp.data.len() > 1500)).collect::<Vec<_>>() {
        // every small declared size, and larger ones
        for tk in 0..4usize { v.push(job(format!("declared sizes of {}, tail {}", name, tk), move |ctx: &mut Ctx| {
            let all = all_samples(); let s = &all[k]; let d = declared(s).unwrap();
            let t = tail(tk, q(24_000, 60_000));
            let mut ws: Vec<usize> = if heavy && !thorough() { vec![0, 1, 2, 3, 7, 8, 12, 16, 17, 24, 28, 31, 32, 33] } else { (0..=q(34, 70)).collect() };
            ws.extend([48, 64, 100, 250, 1000, 1001, 1002, 1003, 1500, 4099, 65535]); if d.size == 4 { ws.extend([65536, 70000, 1 << 20]); }
            for x in [d.w0.saturating_sub(2), d.w0.saturating_sub(1), d.w0, d.w0 + 1, d.w0 + 2, d.w0 + 16, d.w0 * 2, d.w0 / 2] { if !ws.contains(&x) { ws.push(x); } }
            let mut hs: Vec<usize> = if heavy && !thorough() { vec![0, 1, 2, 3, 4, 7] } else { (0..=q(9, 24)).collect() };
            hs.extend([16, 31, 64, 200, 4097, 65535]);
            for x in [d.h0.saturating_sub(1), d.h0, d.h0 + 1, d.h0 + 2, d.h0 * 2] { if !hs.contains(&x) { hs.push(x); } }
            let mut ok = 0u64;
            for &w in &ws { for &h in &hs {
                if w * h > q(1_500_000, 6_000_000) { continue; }
                let mut b = d.bytes.clone(); b.extend(&t);
                put(&mut b, d.wpos, d.size, w as u32); put(&mut b, d.hpos, d.size, h as u32);
                ok += one(ctx, &b, want(s, &d, w, h), &|| format!("{} declared as {}x{}, {} bytes of filler {} after the file", s.name, w, h, t.len(), tk)) as u64;
            } }
            ctx.sample(format!("{}: {} of {} declared sizes decode with filler {}", s.name, ok, ws.len() * hs.len(), tk));
        })); }
        // other geometry fields, one and two at a time
        v.push(job(format!("geometry fields of {}", name), move |ctx: &mut Ctx| {
            let all = all_samples(); let s = &all[k];
            let (mut bytes, fields) = s.doc.fields();
            let slow = s.name == "MOS lossless JPEG" && !thorough();
            bytes.extend(tail(3, if slow { 900 } else { 6000 }));
            let mut f: Vec<(usize, usize, bool, String)> = fields.iter().filter(|f| GEO.iter().any(|g| f.what == format!("value of {}", g) || f.what == format!("count of {}", g) || f.what == format!("type of {}", g))).map(|f| (f.pos, f.len, f.big, f.what.clone())).collect();
            for p in sofs(&bytes).into_iter().take(q(1, 9)) { for (o, l, w) in [(3usize, 1usize, "precision"), (4, 2, "frame height"), (6, 2, "frame width"), (8, 1, "components"), (10, 1, "sampling of component 1"), (13, 1, "sampling of component 2"), (16, 1, "sampling of component 3")] { f.push((p + 1 + o, l, true, w.to_string())); } }
            let get = |b: &[u8], x: &(usize, usize, bool, String)| -> u32 { (0..x.1).fold(0u32, |a, i| a << 8 | b[x.0 + if x.2 { i } else { x.1 - 1 - i }] as u32) };
            let set = |b: &mut [u8], x: &(usize, usize, bool, String), val: u32| { for i in 0..x.1 { b[x.0 + if x.2 { x.1 - 1 - i } else { i }] = (val >> (8 * i)) as u8; } };
            let vals = |x: &(usize, usize, bool, String)| -> Vec<u32> {
                let v = get(&bytes, x);
                let mut m: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 32, 33, 64, 0x11, 0x12, 0x21, 0x22, 100, 255, v.wrapping_sub(1), v.wrapping_add(1), v.wrapping_sub(2), v.wrapping_add(2), v / 2, v.wrapping_mul(2), v / 2 << 1, v << 16 | v];
                if x.1 > 1 { m.extend([1000, 4000, 32767]); if x.3.starts_with("frame") && !thorough() { m.retain(|&y| y < 2000); } }
                if x.1 == 2 && x.3.starts_with("type") { m = vec![1, 3, 4, 5, 7]; }
                if x.1 == 4 { m.extend([65535, 65536]); }
                if slow { m.retain(|&y| y < 300 || y > 1 << 27); }
                m.sort(); m.dedup(); m.retain(|&y| y != v && (x.1 == 4 || y < 1 << (8 * x.1))); m
            };
            let cpp_known = |whats: &[&String]| if s.name.starts_with("DNG") || s.name.starts_with("NEF") || s.name.starts_with("CR2") || whats.is_empty() { None } else { Some(s.exp.cpp) };
            for i in 0..f.len() { for a in vals(&f[i]) {
                let mut b = bytes.clone(); set(&mut b, &f[i], a);
                one(ctx, &b, (None, None, cpp_known(&[&f[i].3])), &|| format!("{} with {} = {}", s.name, f[i].3, a));
                if heavy && !thorough() { continue; }
                for j in i + 1..f.len() {
                    let m = vals(&f[j]);
                    let step = if thorough() { 1 } else if slow { 13 } else { 3 };
                    for c in m.into_iter().skip(if thorough() { 0 } else { a as usize % 3 }).step_by(step) {
                        let mut b = b.clone(); set(&mut b, &f[j], c);
                        if f[i].3.starts_with("frame") && f[j].3.starts_with("frame") && a as u64 * c as u64 > 4_000_000 { continue; }
                        one(ctx, &b, (None, None, cpp_known(&[&f[i].3, &f[j].3])), &|| format!("{} with {} = {} and {} = {}", s.name, f[i].3, a, f[j].3, c));
                    }
                }
            } }
            ctx.sample(format!("{}: {} geometry fields, singly and in pairs", s.name, f.len()));
        }));
    }
    // DNG tiles: declared image, tile grid, tile count and coded frame all vary
    for cpp in [1usize, 3] { v.push(job(format!("DNG tile grids, {} components", cpp), move |ctx: &mut Ctx| {
        let mut okn = 0u64;
        for (fw, fh) in [(4usize, 4usize), (6, 2), (8, 3)] {
            let t = ljpeg(fw * cpp, fh, if cpp == 3 { 3 } else { 2 }, 12, &px(fw * cpp, fh, 12, 1));
            for w in 1..=q(13usize, 18) { for h in 1..=q(7usize, 10) { for tw in 1..=q(9usize, 10) { for tl in 1..=5usize {
                let n = (w + tw - 1) / tw * ((h + tl - 1) / tl);
                for m in [n, n + 1, n.saturating_sub(1), 1] { if m == 0 || m > 40 || (m != n && (w + h) % 3 != 0) { continue; }
                    let d = dng_tiles(w, h, cpp as u16, 12, tw, tl, vec![t.clone(); m], false);
                    okn += one(ctx, &d.bytes(), (Some(w), Some(h), Some(cpp)), &|| format!("DNG {}x{}x{} in {} tiles of {}x{}, each coding {}x{}", w, h, cpp, m, tw, tl, fw, fh)) as u64;
                }
            } } } }
        }
        ctx.sample(format!("{} tile grids decoded", okn));
    })); }
    // DNG strips: components declared against components coded
    v.push(job("DNG components", |ctx: &mut Ctx| {
        ctx.explore(0, |ch, ctx| {
            let spp = ch.choose(8); let cps = ch.choose(4) + 1; let lin = ch.flag(); let big = ch.flag(); let comp = ch.flag();
            let (fw, fh) = (ch.of(&[2usize, 4, 6, 12]), ch.of(&[1usize, 3]));
            let (w, h) = (ch.of(&[1usize, 2, 3, 4, 6, 12, 13]), ch.of(&[1usize, 2, 3, 4]));
            let pay = if comp { match Lj::new(12, fw, fh, cps, Huff::chain(2, 0)).encode(&px(fw * cps, fh, 12, 2)) { Some(x) => x, None => return } } else { let mut x = w16(big, &px(fw * cps, fh, 16, 2)); if cps == 4 { x.extend(vec![5; 4000]); } x };
            let mut d = dng(w, h, spp as u16, if comp { 12 } else { 16 }, pay, big);
            let r = dng_raw(&mut d);
            if comp { r.set(0x103, V::S(vec![7])); }
            r.set(0x106, V::S(vec![if lin { 34892 } else { 32803 }]));
            one(ctx, &d.bytes(), (Some(w), Some(h), Some(spp)), &|| format!("DNG {}x{} declaring {} components, coding {}x{}x{}, linear {}, compressed {}", w, h, spp, fw, fh, cps, lin, comp));
        });
    }));
    // Canon: frame size, components, sampling, stripes, declared size and camera all vary
    for (model, hint) in [("Canon EOS-1D", "double_line"), ("Canon EOS 40D", ""), ("EOS D2000C", "linearization")] { for declared in [false, true] { v.push(job(format!("CR2 frames of {} declared size {}", model, declared), move |ctx: &mut Ctx| {
        let c = match Db::load().get("Canon", model, "") { Some(c) => c.clone(), None => return };
        let (w0, h0) = size(&c);
        let dbl = c.hint("double_line");
        let _ = hint;
        ctx.explore(0, |ch, ctx| {
            let cps = ch.choose(4) + 1;
            let samp = ch.of(&[0x11u8, 0x21, 0x22, 0x12]);
            let sub = samp != 0x11;
            let (fw, fh) = if sub { (ch.of(&[2usize, 6, 8, 12]), ch.of(&[2usize, 4, 6])) } else { let x = ch.choose(3); (if dbl { w0 * 2 } else { w0 } + [0, 1, 12][x], h0 + ch.of(&[0usize, 2, 3])) };
            let mut lj = Lj::new(14, fw, fh, cps, Huff::chain(2, 0)); lj.samp = samp;
            let mut b = lj.head();
            let n = fw * fh * cps;
            if sub { b.extend(tail(3, n * 3 + 400)); } else { match Lj::new(14, fw, fh, cps, Huff::chain(2, 0)).encode(&px(fw * cps, fh, 14, 5)) { Some(x) => b = x, None => return } }
            let stripes = match ch.choose(if thorough() { 7 } else { 5 }) { 0 => None, 1 => Some([0u16, 1, 1]), 2 => Some([1, (fw * cps / 2) as u16, (fw * cps - fw * cps / 2) as u16]), 3 => Some([2, 2, 4]), 4 => Some([1, fw as u16, fw as u16]), 5 => Some([3, 3, 3]), _ => Some([1, 6, 0]) };
            let dims = if declared { Some((ch.of(&[fw, fw * 3, fh, 1, 4, 8, fw * cps / 3]), ch.of(&[fh, fw, 1, 2, fh * 2]))) } else { None };
            let off = if c.wb_offset != 0 { c.wb_offset } else { 63 };
            let mut cd = vec![7u16; off]; cd.extend([2000, 1024, 1024, 1500]); cd.extend([9; 40]);
            let lin: Vec<u16> = (0..4096).collect();
            let d = cr2("Canon", model, Cr2Kind::Cfa, b, dims, stripes, &Cr2Wb::Color(cd), if c.hint("linearization") { Some(&lin) } else { None }, 0, false);
            // the frame decides unless it is subsampled, in which case the declared size does
            let w: Want = if samp & 0xf0 == 0x20 { match dims { Some((w, h)) => (Some(w), Some(h), Some(3)), None => (None, None, Some(3)) } } else if dbl { (Some(fw * cps / 2), Some(fh * 2), Some(1)) } else { (Some(fw * cps), Some(fh), Some(1)) };
            one(ctx, &d.bytes(), w, &|| format!("CR2 {} frame {}x{}x{} sampling {:x} stripes {:?} declared {:?}", model, fw, fh, cps, samp, stripes, dims));
        });
    })); } }
    // turned Fuji sensors
    for c in Db::load().all.iter().filter(|c| c.make == "FUJIFILM" && c.mode == "" && (c.hint("fuji_rotation") || c.hint("fuji_rotation_alt"))).cloned().collect::<Vec<_>>() {
        v.push(job(format!("turned sensor of {}", c.model), move |ctx: &mut Ctx| {
            let (cx, cy) = (c.crops[1] + c.crops[3], c.crops[0] + c.crops[2]);
            let dblw = c.hint("double_width");
            for w in (cx..cx + q(12, 24)).chain(cx.saturating_sub(2)..cx) { for h in (cy..cy + q(10, 20)).chain(cy.saturating_sub(2)..cy) {
                let n = w * h * if dblw { 4 } else { 2 };
                let mut p = tail(3, n + 16); p[0] = 1;
                let want: Want = if w >= cx && h >= cy { let (nw, nh) = (w - cx, h - cy); let r = if c.hint("fuji_rotation_alt") { nh + nw / 2 } else { nw + nh / 2 }; (Some(r), Some(r.wrapping_sub(1)), Some(1)) } else { (None, None, Some(1)) };
                for big in [false, true] {
                    one(ctx, &raf_old(&c.model, w, h, p.clone(), [256, 300, 257, 400], 0, big).bytes(), want, &|| format!("old RAF {} declaring {}x{}", c.model, w, h));
                    one(ctx, &raf_new(&c.model, w, h, Some(16), p.clone(), [256, 300, 257], 0, big).bytes(), want, &|| format!("RAF {} declaring {}x{}", c.model, w, h));
                }
            } }
        }));
    }
    // cameras whose size does not come from the file
    v.push(job("NIKON D100 is always 3040 wide", |ctx: &mut Ctx| {
        for w in [2usize, 3034, 3037, 3040, 3100] { for h in 0..6usize { for len in [0usize, 4000, 9999, 40000] {
            let d = nef("NIKON D100", w, h, 1, 12, len, tail(3, len), None, &NefWb::Plain([(3, 2), (5, 4)]), 0, true, true);
            one(ctx, &d.bytes(), (Some(3040), Some(h), Some(1)), &|| format!("D100 declaring {}x{} with {} bytes", w, h, len));
        } } }
    }));
    v.push(job("small Nikon raws", |ctx: &mut Ctx| {
        for w in 0..=q(20usize, 40) { for h in 0..=q(6usize, 12) { for extra in [0usize, 1, 6, 100] { for comp in [34713u32] { for model in ["NIKON D300", "NIKON D40"] {
            let mut meta = vec![70u8, 48]; for x in [500u16, 510, 490, 505] { meta.extend(x.to_be_bytes()); } meta.extend([0; 8]);
            let d = nef(model, w, h, comp, 12, w * h * 3, tail(3, w * h * 3 + extra), Some((true, meta)), &NefWb::Plain([(3, 2), (5, 4)]), 0, false, true);
            one(ctx, &d.bytes(), (Some(w), Some(h), if w * h > 0 { Some(3) } else { None }), &|| format!("sNEF {} {}x{} with {} bytes more", model, w, h, extra));
        } } } } }
    }));
    v.push(job("headerless dumps of every camera", |ctx: &mut Ctx| {
        for c in Db::load().all.iter().filter(|c| c.filesize > 0) {
            for k in [1usize, 3] {
                let mut b = tail(k, c.filesize); if k == 3 { b[0] = 1; }
                one(ctx, &b, (Some(c.raw_width), Some(c.raw_height), Some(1)), &|| format!("headerless dump of {} {}", c.make, c.model));
            }
        }
    }));
    v
}
fn main() {
    run_main(Spec::new("C02", "every sample format with each declared width 0..34 (70) and larger x height 0..9 (24) and larger x 4 kinds of data after the stored samples; every geometry field (dimensions, strips, tiles, components, stripes, frame header) from a menu singly and in pairs; DNG tile grids, component counts, CR2 frames x sampling x stripes x declared size, turned sensors, small raws and headerless dumps exhaustively within small ranges", &["declared sizes beyond a few million samples belong to C01", "how a format derives the size (Sony's eight extra rows, Kodak's margins, Canon's coded frame, turned Fuji sensors) is the published behaviour of the format"]), jobs);
}
