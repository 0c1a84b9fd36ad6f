//! C17: white balance, levels, crop, orientation, pattern, matrix and names come from the file, in each format's own
//! place and encoding, and from the camera database where the format does not store them.
use std::f32::NAN;
use harness::{camdb::*, chk::mix, fmt::*, run::*, samples::*, tiffb::*};

fn one(ctx: &mut Ctx, doc: &Doc, e: &Exp, what: &dyn Fn() -> String) {
    let bytes = doc.bytes();
    ctx.begin(|| (what(), bytes.clone()));
    ctx.states += 1; ctx.transitions += 1;
    match ctx.decode(&bytes) {
        Err(m) => ctx.fail("err", &what(), &bytes, &format!("decoding failed: {}", m.replace('\n', " "))),
        Ok(i) => { ctx.outcome(hash(&format!("{:?}{:?}{:?}{:?}{:?}{:?}", i.wb_coeffs, i.blacklevels, i.whitelevels, i.crops, i.orientation, i.model))); if let Err(m) = cmp_all(&i, e) { ctx.fail("meta", &what(), &bytes, &m); } }
    }
}
fn menu(max: u32, short: bool) -> Vec<u32> {
    let mut v: Vec<u32> = if short { vec![0, 1, 0x0102, 0x7fff, 0x8000, 0xfffe, max] } else { vec![0, 1, 2, 3, 127, 128, 255, 256, 257, 0x0102, 0x1234, 0xabcd, 0x7fff, 0x8000, 0x8001, 0xffff, 0x010203, 0x1020304, max - 1, max] };
    if !short { let mut p = 4u64; while p <= max as u64 { v.extend([(p - 1) as u32, p as u32, (p + 1).min(max as u64) as u32]); p *= 2; } }
    v.retain(|&x| x <= max); v.sort(); v.dedup(); v
}
fn run_site(ctx: &mut Ctx, s: &Site, x: &[u32], o: Opt) {
    if let Some((d, e)) = (s.build)(x, o) { one(ctx, &d, &e, &|| format!("{}: stored values {:?}, {:?}", s.name, x, o)); }
}
fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();
    let n = all_sites().len();
    let o0 = Opt { big: false, mbig: false, orient: 1 };
    let orders = |s: &Site| -> Vec<Opt> { let mut r = Vec::new(); for big in [false, true] { for mbig in [false, true] { if (big && !s.orders) || (mbig && !s.morders) { continue; } r.push(Opt { big, mbig, orient: if s.orients { 1 } else { 0 } }); } } r };
    for k in 0..n {
        let name = all_sites()[k].name.clone();
        v.push(job(format!("stored values: {}", name), move |ctx: &mut Ctx| {
            let s = &all_sites()[k];
            for o in orders(s) {
                run_site(ctx, s, &s.def, o);
                for f in 0..s.def.len() {
                    let vals: Vec<u32> = if thorough() && s.max[f] <= 65535 && !s.heavy { let mut v: Vec<u32> = (0..=s.max[f]).step_by(if s.name.starts_with("CRW") { 31 } else { 1 }).collect(); v.extend(menu(s.max[f], false)); v } else { menu(s.max[f], s.heavy) };
                    for x in vals { let mut y = s.def.clone(); y[f] = x; run_site(ctx, s, &y, o); }
                }
                // all pairs of fields
                for f in 0..s.def.len() { for g in f + 1..s.def.len() {
                    for a in menu(s.max[f], true) { for b in menu(s.max[g], true) { let mut y = s.def.clone(); y[f] = a; y[g] = b; run_site(ctx, s, &y, o); } }
                } }
            }
            ctx.sample(format!("{} defaults {:?}", s.name, s.def));
        }));
        if all_sites()[k].orients { v.push(job(format!("orientation: {}", name), move |ctx: &mut Ctx| {
            let s = &all_sites()[k];
            let all: Vec<u16> = if (thorough() && !s.heavy) || s.name == "ERF" { (0..=65535).collect() } else { (0..=17).chain([255, 256, 257, 0x0600, 0x0106, 0x8000, 0x8006, 65535]).collect() };
            for o in orders(s) { for &w in &all { run_site(ctx, s, &s.def, Opt { orient: w, ..o }); } }
        })); }
    }
    // DSLR-A100: four values in a private block, behind any number of other blocks
    for part in 0..3usize { v.push(job(format!("DSLR-A100 white balance, part {}", part), move |ctx: &mut Ctx| {
        let (w, h) = (3881usize, 2608usize);
        let c = Db::load().cam("SONY", "DSLR-A100", "");
        let mut bits = harness::bits::Bits::new();
        for _ in 0..w * h { bits.put(0b011, 3); }
        let mut by = bits.bytes(); by.extend([0; 8]);
        let mut lists: Vec<([u16; 4], usize)> = vec![([400, 256, 257, 300], 0), ([0x0102, 0x0304, 0x0506, 0x0708], 1), ([0xfffe, 0x8001, 0, 0x7fff], 2), ([1, 2, 3, 4], 5)];
        for f in 0..4 { for &x in q(&[0u16, 65535][..], &[0u16, 1, 255, 256, 32767, 32768, 65535][..]) { let mut y = [400u16, 256, 257, 300]; y[f] = x; lists.push((y, f)); } }
        let mut e = Exp::cam(&c, w, h, vec![0; w * h], [NAN; 4]);
        for (n, (lv, before)) in lists.into_iter().enumerate().filter(|(n, _)| n % 3 == part) {
            e.wb = [lv[0] as f32, lv[1] as f32, lv[3] as f32, NAN];
            // every other file ends with the last of the four values
            harness::bits::TIGHT.store(n / 3 % 2 == 0, std::sync::atomic::Ordering::SeqCst);
            let d = a100(by.clone(), lv, before, n % 2 == 1);
            harness::bits::TIGHT.store(false, std::sync::atomic::Ordering::SeqCst);
            one(ctx, &d, &e, &|| format!("A100 white balance {:?} behind {} blocks", lv, before));
        }
    })); }
    // Nikon: every serial number residue with every key
    for ver in [204u16, 205] { for kk in 0..8u32 { v.push(job(format!("NEF encrypted white balance {} keys {}..", ver, kk * 32), move |ctx: &mut Ctx| {
        let c = Db::load().cam("NIKON CORPORATION", "NIKON D300", "12bit");
        let s = px(6, 4, 12, 1);
        for key in kk * 32..kk * 32 + 32 { for sn in 0..256u32 {
            let serial = leak(&format!("{}", 7000u32 * 256 + sn));
            let x = mix(key as usize, sn as usize, 5);
            let kw = NefWb::Enc { v: ver, rgb: [x as u16, (x >> 8) as u16 ^ 0x5555, (x >> 16) as u16], serial, key: [key as u8 ^ 0x35, 0x31, 4, 0] };
            let d = nef("NIKON D300", 6, 4, 1, 12, 36, p12be(&s), None, &kw, 1, true, false);
            let mut e = Exp::cam(&c, 6, 4, s.clone(), nef_wb(&kw)); e.orient = 1;
            one(ctx, &d, &e, &|| format!("NEF white balance version {} serial {} key {}", ver, serial, key));
        } }
    })); } }
    v.push(job("NEF serial numbers that are not only digits", |ctx: &mut Ctx| {
        let c = Db::load().cam("NIKON CORPORATION", "NIKON D300", "12bit");
        let s = px(6, 4, 12, 1);
        for ver in [204u16, 205] { for len in 1..9usize { for pos in 0..len { for ch in 33..127u8 {
            let mut t: Vec<u8> = (0..len).map(|i| b'1' + (i as u8 * 3) % 9).collect(); t[pos] = ch;
            let serial = leak(std::str::from_utf8(&t).unwrap());
            let kw = NefWb::Enc { v: ver, rgb: [0x1234, 0x8001, 0x0ff0], serial, key: [9, 8, 7, 6] };
            let d = nef("NIKON D300", 6, 4, 1, 12, 36, p12be(&s), None, &kw, 1, true, true);
            let mut e = Exp::cam(&c, 6, 4, s.clone(), nef_wb(&kw)); e.orient = 1;
            one(ctx, &d, &e, &|| format!("NEF white balance version {} serial {:?}", ver, serial));
        } } } }
    }));
    // Sony: keys and block lengths
    v.push(job("ARW key bits", |ctx: &mut Ctx| {
        let c = Db::load().cam("SONY", "DSLR-A300", "");
        let s = px(6, 4, 16, 2);
        let mut keys: Vec<u32> = Vec::new();
        for b in 0..32 { keys.push(1 << b); keys.push(!(1 << b)); }
        for x in 0..q(300, 20000) { keys.push(mix(x, 1, 2)); keys.push(x as u32); }
        for key in keys { for rggb in [true, false] { let lv = [(key >> 3) as u16, (key >> 9) as u16, (key >> 12) as u16, !(key >> 5) as u16];
            let d = arw(&ArwP { model: "DSLR-A300", w: 6, h: 4, comp: 1, bps: 16, count: 48, curve: None, rggb, lv, key, orient: 3 }, w16(false, &s));
            let mut e = Exp::cam(&c, 6, 4, s.clone(), sony_wb(rggb, lv)); e.orient = 3;
            one(ctx, &d, &e, &|| format!("ARW key {:#x} levels {:?}", key, lv));
        } }
    }));
    // DCR: the white balance block is only used at its full size
    v.push(job("DCR white balance block sizes", move |ctx: &mut Ctx| {
        let all = all_sites();
        let s = all.iter().find(|s| s.name == "DCR full=false").unwrap();
        for n in 0..46u32 { for o in orders(s) { run_site(ctx, s, &[n, 800, 900], o); } }
    }));
    // DNG's own metadata
    v.push(job("DNG active areas", |ctx: &mut Ctx| {
        let (w, h) = (7usize, 6usize); let s = px(w, h, 16, 3);
        for big in [false, true] { for long in [false, true] {
            for t in 0..=h { for l in 0..=w { for b in t..=h { for r in l..=w {
                let mut d = dng(w, h, 1, 16, w16(big, &s), big);
                dng_raw(&mut d).put(0xc68d, if long { V::L(vec![t as u32, l as u32, b as u32, r as u32]) } else { V::S(vec![t as u16, l as u16, b as u16, r as u16]) });
                let mut e = dng_exp(w, h, 1, s.clone()); e.crops = [t, w - r, h - b, l];
                one(ctx, &d, &e, &|| format!("DNG {}x{} active area rows {}..{} columns {}..{} big endian {}", w, h, t, b, l, r, big));
            } } } }
        } }
    }));
    v.push(job("DNG colour patterns", |ctx: &mut Ctx| {
        let (w, h) = (12usize, 12usize); let s = px(w, h, 16, 4);
        let mut pats: Vec<Vec<u8>> = Vec::new();
        for x in 0..81usize { pats.push(vec![(x % 3) as u8, (x / 3 % 3) as u8, (x / 9 % 3) as u8, (x / 27) as u8]); }
        for sd in 0..q(40, 400) { for n in [36usize, 16, 144] { pats.push((0..n).map(|i| (mix(i, sd, n) % 3) as u8).collect()); } }
        for n in [36usize, 16, 144] { for p in 0..n { let mut x = vec![1u8; n]; x[p] = 0; x[(p + n / 2 + 1) % n] = 2; pats.push(x); } }
        for p in pats { for big in [false, true] { for lin in [false, true] {
            let cpp = if lin { 3 } else { 1 };
            let sx = if lin { px(w * 3, h, 16, 5) } else { s.clone() };
            let mut d = dng(w, h, cpp, 16, w16(big, &sx), big);
            dng_raw(&mut d).set(0x828e, V::B(p.clone()));
            let mut e = dng_exp(w, h, cpp as usize, sx);
            if !lin { e.pattern = p.iter().map(|&x| ['R', 'G', 'B'][x as usize]).collect(); }
            if lin && p.len() != 4 { continue; }
            one(ctx, &d, &e, &|| format!("DNG colour pattern {:?} linear {}", p, lin));
        } } }
    }));
    v.push(job("DNG colour matrices", |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize); let s = px(w, h, 16, 6);
        let nums = [0i32, 1, -1, 5, -7, 10000, -10000, 32767, -32768, 65536, -65537, i32::MAX, i32::MIN];
        let dens = [1i32, 3, 10000, 65536, i32::MAX];
        for big in [false, true] { for which in 0..3 { for n in [9usize, 12] { for pos in 0..n { for &a in &nums { for &b in &dens {
            let base: Vec<(i32, i32)> = (0..n).map(|i| (i as i32 * 1000 - 3000, 10000)).collect();
            let mut m = base.clone(); m[pos] = (a, b);
            let mut d = dng(w, h, 1, 16, w16(big, &s), big);
            let i = &mut d.tiff().ifds[0];
            match which { 0 => i.put(0xc621, V::SR(m.clone())), 1 => i.put(0xc622, V::SR(m.clone())), _ => { i.put(0xc621, V::SR(vec![(7, 8); n])); i.put(0xc622, V::SR(m.clone())); } }
            let mut e = dng_exp(w, h, 1, s.clone());
            e.matrix = [[0.0; 3]; 4];
            for (k, x) in m.iter().enumerate() { e.matrix[k / 3][k % 3] = x.0 as f32 / x.1 as f32; }
            one(ctx, &d, &e, &|| format!("DNG colour matrix {:?} in {} big endian {}", m, ["ColorMatrix1", "ColorMatrix2", "ColorMatrix2 beside ColorMatrix1"][which], big));
        } } } } } }
    }));
    v.push(job("DNG levels in every integer and rational encoding", |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize); let s = px(w, h, 16, 7);
        for big in [false, true] { for enc in 0..5 { for n in [1usize, 2, 3, 4, 5, 8] { for pos in 0..n { for x in menu(65535, false) {
            if enc == 3 && x > 255 { continue; }
            let mut bl: Vec<u32> = (0..n as u32).map(|i| 10 + i * 7).collect(); bl[pos] = x;
            let mut d = dng(w, h, 1, 16, w16(big, &s), big);
            let r = dng_raw(&mut d);
            r.put(0xc61a, match enc { 0 => V::S(bl.iter().map(|&x| x as u16).collect()), 1 => V::L(bl.clone()), 2 => V::R(bl.iter().map(|&x| (x * 256 + 100, 256)).collect()), 3 => V::B(bl.iter().map(|&x| x as u8).collect()), _ => V::R(bl.iter().map(|&x| (x, 1)).collect()) });
            r.set(0xc61d, if enc % 2 == 0 { V::S(vec![x as u16]) } else { V::L(vec![x]) });
            let mut e = dng_exp(w, h, 1, s.clone());
            e.black = if n < 4 { [bl[0] as u16; 4] } else { [bl[0] as u16, bl[1] as u16, bl[2] as u16, bl[3] as u16] };
            e.white = [x as u16; 4];
            one(ctx, &d, &e, &|| format!("DNG black levels {:?} encoding {} white level {}", bl, enc, x));
        } } } } }
    }));
    v.push(job("DNG names", |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize); let s = px(w, h, 16, 8);
        for c in Db::load().all.iter() { for extra in ["", "X"] { for pad in ["", " ", "\0", "\0junk"] {
            let (mk, md) = (c.make.clone(), format!("{}{}", c.model, extra));
            let mut d = dng(w, h, 1, 16, w16(false, &s), false);
            let i = &mut d.tiff().ifds[0];
            i.set(0x10f, V::A(format!("{}{}", mk, pad))); i.set(0x110, V::A(format!("{}{}", md, pad))); i.put(0x112, V::S(vec![5]));
            let mut e = dng_exp(w, h, 1, s.clone()); e.orient = 5;
            let k = (mk.trim().to_string(), md.trim().to_string(), String::new());
            let cands: Vec<(String, String)> = match Db::load().by.get(&k) { Some(cs) => cs.iter().map(|c| (c.clean_make.clone(), c.clean_model.clone())).collect(), None => vec![(k.0.clone(), k.1.clone())] };
            e.make = k.0.clone(); e.model = k.1.clone();
            let b = d.bytes();
            ctx.begin(|| (format!("DNG of {:?}", k), b.clone())); ctx.states += 1; ctx.transitions += 1;
            match ctx.decode(&b) { Err(m) => ctx.fail("err", &format!("DNG of {:?}", k), &b, &m), Ok(i) => { let mut last = Ok(()); for c in cands.iter() { e.clean_make = c.0.clone(); e.clean_model = c.1.clone(); last = cmp_all(&i, &e); if last.is_ok() { break; } } if let Err(m) = last { ctx.fail("meta", &format!("DNG of {:?} padded {:?}", k, pad), &b, &m); } } }
        } } }
    }));
    // where two places are filled, the first of the documented order counts
    // the neutral values stand anywhere in the metadata block, as numbers of any length
    v.push(job("MOS neutral values anywhere in the block", |ctx: &mut Ctx| {
        let (w, h) = (8usize, 4usize);
        let s = px(w, h, 16, 3);
        let c = Db::load().cam("Leaf", "Leaf Aptus 75", "");
        let texts: Vec<[&str; 4]> = vec![["1000", "500", "1000", "800"], ["1", "1", "2", "3"], ["1000.0000000", "512.2500000", "1000.5000000", "800.1250000"], ["0000000001000", "0000000000500", "0000000002000", "0000000000250"], ["65535.984375", "1.25", "7", "3333333.5"], ["1e3", "5e2", "25e-2", "1"], ["9", "10000000000000000000", "0.0000000001", "4"]];
        for (k, t) in texts.iter().enumerate() { for before in (0..70usize).chain([100, 255, 256, 257, 1000, 4097, 70000]) { for after in [27usize, 28, 60, 500] { for big in [false, true] {
            if k > 2 && before > 9 && after != 60 { continue; }
            let mut m: Vec<u8> = (0..before).map(|i| b"PKTS\0\x01NeutObj_neutral_NeutObj"[i % 29]).collect();
            if m.ends_with(b"N") { *m.last_mut().unwrap() = 0; }
            m.extend_from_slice(b"NeutObj_neutrals");
            m.extend((0..28u8).map(|i| i * 9));
            m.extend_from_slice(t.join("\n").as_bytes());
            m.extend(vec![0; after]);
            m.extend_from_slice(b"NeutObj_name");
            let mut d = mos("Leaf", "Leaf Aptus 75", w, h, 1, w16(big, &s), None, big);
            d.tiff().ifds[0].set(0x8606, V::U(m));
            let x: Vec<f32> = t.iter().map(|y| y.parse().unwrap()).collect();
            let e = Exp::cam(&c, w, h, s.clone(), [x[0] / x[1], x[0] / x[2], x[0] / x[3], NAN]);
            one(ctx, &d, &e, &|| format!("MOS neutral values {:?} behind {} bytes, followed by {}", t, before, after));
        } } } }
    }));
    v.push(job("two white balances in one file", move |ctx: &mut Ctx| {
        let all = all_sites();
        let dec = |ctx: &mut Ctx, name: &str, ifd: Ifd| {
            for s in all.iter().filter(|s| s.name.starts_with(name)) { for o in orders(s) { for first in [false, true] { if let Some((mut d, e)) = (s.build)(&s.def, Opt { orient: if s.orients { 6 } else { 0 }, ..o }) {
                { let t = d.tiff(); if first { let i = &mut t.ifds[0]; for x in ifd.e.iter() { if !i.e.iter().any(|y| y.0 == x.0) { i.put(x.0, x.1.clone()); } } } else { t.ifds.push(ifd.clone()); } }
                one(ctx, &d, &e, &|| format!("{} with a second white balance", s.name));
            } } } }
        };
        dec(ctx, "RW2 white balance kind 0", Ifd::new().s(0x24, 11).s(0x25, 12).s(0x26, 13));
        dec(ctx, "NEF NIKON D300 white balance kind 0", Ifd::new().t(0x97, V::U(b"0100aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa".to_vec())));
        dec(ctx, "CR2 Canon EOS 450D white balance kind 0", Ifd::new().t(0x29, V::L(vec![9; 12])).t(0xa4, V::R(vec![(1, 2); 3])));
        dec(ctx, "CR2 Canon EOS 450D white balance kind 1", Ifd::new().t(0xa4, V::R(vec![(1, 2); 3])));
        dec(ctx, "DNG 4 black", Ifd::new().t(0x97, V::U(vec![48; 100])).s(0x24, 11).t(0xa4, V::R(vec![(1, 2); 3])));
    }));
    // every camera whose files a plain builder can write
    for ch in 0..24usize { v.push(job(format!("every camera of the database, part {}", ch), move |ctx: &mut Ctx| {
        let db = Db::load();
        for (k, c) in db.all.iter().enumerate() {
            if k % 24 != ch || db.by[&(c.make.clone(), c.model.clone(), c.mode.clone())].len() > 1 { continue; }
            if c.make.trim() != c.make || c.model.trim() != c.model { continue; }
            for big in [false, true] { for mbig in [false, true] {
                if !thorough() && big != mbig { continue; }
                if let Some((d, e)) = plain(c, Opt { big, mbig, orient: (k % 9) as u16, ..o0 }) { one(ctx, &d, &e, &|| format!("file of {} {} mode {:?}", c.make, c.model, c.mode)); }
            } }
        }
    })); }
    v
}
fn main() {
    run_main(Spec::new("C17", "every place where a format stores metadata: each stored field over 0, 1, all powers of two and their neighbours, byte-asymmetric values and the maximum (thorough: all 65536 values of 16-bit fields, every 31st for CRW), all pairs of fields over 7 values, each container and maker-note byte order, orientation codes (all 65536 for one format; thorough: for all); all 65536 Nikon serial/key pairs for both encryption versions; all active areas of a 7x6 DNG, all 81 2x2 patterns and families of larger ones; colour matrices with every entry over extreme rationals; DNG levels in every encoding and count; all database names; a plain file of every camera of the makers with plain formats, all metadata compared",
        &["NRW values of 2^20 and more, DNG white levels above 65535 and over-long Nikon serial numbers are outside the formats and not examined", "floats are compared to a relative 1e-5"]), jobs)
}
