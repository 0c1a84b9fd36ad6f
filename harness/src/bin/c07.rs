//! C07: where and how a container stores its directories and values does not change the decoded image.
use std::f32::NAN;
use harness::{chk::mix, ex::Chooser, fmt::*, run::*, samples::*, tiffb::*};

fn one(ctx: &mut Ctx, bytes: &[u8], e: &Exp, what: &dyn Fn() -> String) {
    ctx.begin(|| (what(), bytes.to_vec()));
    ctx.states += 1; ctx.transitions += 1;
    match ctx.decode(bytes) {
        Err(m) => ctx.fail("err", &what(), bytes, &format!("decoding failed: {}", m.replace('\n', " "))),
        Ok(i) => { ctx.outcome(hash(&(&i.data, format!("{:?}", i.wb_coeffs)))); if let Err(m) = cmp_all(&i, e) { ctx.fail("diff", &what(), bytes, &m); } }
    }
}
fn layout(ch: &mut Chooser, big: bool, tail_ok: bool, light: bool) -> Layout {
    let mut l = Layout::std(big);
    l.order = ch.choose(if light { 3 } else { 4 }) as u8;
    l.values_first = ch.flag();
    l.blobs_first = tail_ok && ch.flag();
    l.unknown = ch.choose(4) as u8;
    l.long_ints = ch.flag();
    l.pad = ch.of(if light { &[0, 7] } else { &[0, 1, 7, 4098] });
    if tail_ok { l.tail = ch.of(&[0, 5]); }
    l
}
/// the raw data must be the end of the file, or its length depends on the end of the file
fn tail_bound(n: &str) -> bool { n.starts_with("RW2") }
fn r16(b: &[u8], at: usize, big: bool) -> u16 { let x = [b[at], b[at + 1]]; if big { u16::from_be_bytes(x) } else { u16::from_le_bytes(x) } }
fn r32(b: &[u8], at: usize, big: bool) -> u32 { let x = [b[at], b[at + 1], b[at + 2], b[at + 3]]; if big { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) } }
fn p16(b: &mut [u8], at: usize, big: bool, v: u16) { b[at..at + 2].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() }); }
fn p32(b: &mut [u8], at: usize, big: bool, v: u32) { b[at..at + 4].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() }); }
/// tags that the library gives a meaning
const KNOWN: &[u16] = &[0x2, 0x3, 0xc, 0x11, 0x12, 0x14, 0x1d, 0x24, 0x25, 0x26, 0x29, 0x81, 0x8c, 0x96, 0x97, 0xa4, 0xa7, 0xfe, 0x100, 0x101, 0x102, 0x103, 0x106, 0x10f, 0x110, 0x111, 0x112, 0x115, 0x117, 0x118, 0x123, 0x131, 0x142, 0x143, 0x144, 0x14a, 0x200, 0x201, 0x220, 0x2bc, 0x3fd, 0x90d, 0xe80, 0xf00, 0x1017, 0x1018, 0x2040, 0x2ff0, 0x4001, 0x7010, 0x7200, 0x7201, 0x7221, 0x7303, 0x7313, 0x828e, 0x8290, 0x8606, 0x8769, 0x927c, 0xa010, 0xa021, 0xa028, 0xc5d8, 0xc612, 0xc618, 0xc61a, 0xc61d, 0xc621, 0xc622, 0xc628, 0xc634, 0xc640, 0xc68d, 0xf000, 0xf001, 0xf002, 0xf003, 0xf007, 0xf00e, 0xfa2a, 0xfd00, 0xfd01, 0xfd04, 0xfe00];

/// directories of a tree in search order: own entries first, then the directories below in entry order, then the next one
fn mkdng(w: usize, h: usize, s: &[u16], big: bool) -> Doc { dng(w, h, 1, 16, w16(big, s), big) }

fn maker(i: &Ifd, out: &mut Option<Vec<u8>>) { for (_, v) in &i.e { match v { V::Maker(m) => if m.prefix.len() > 4 { *out = Some(m.prefix.clone()) }, V::Ifds(x) => for y in x { maker(y, out); }, _ => {} } } }

fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();
    // every layout of every sample file
    let names: Vec<(String, bool)> = all_samples().iter().filter(|s| !s.heavy && !matches!(s.doc, Doc::B(_))).map(|s| (s.name.clone(), false)).collect();
    for (k, (name, _)) in names.iter().enumerate() {
        let name = name.clone();
        v.push(job(format!("layouts of {}", name), move |ctx: &mut Ctx| {
            let all = all_samples();
            let s = all.iter().filter(|s| !s.heavy && !matches!(s.doc, Doc::B(_))).nth(k).unwrap();
            let big = match s.doc { Doc::T(_, ref l) => l.big, Doc::Raf(ref r) => r.l1.big, _ => false };
            let light = !thorough() && s.exp.data.len() > 3000;
            ctx.explore(0, |ch, ctx| {
                let l = layout(ch, big, !tail_bound(&s.name), light);
                let (b, _) = s.doc.build(Some(&l));
                one(ctx, &b, &s.exp, &|| format!("{} laid out as {:?}", s.name, l));
            });
            ctx.sample(format!("{} in every layout", s.name));
        }));
    }
    // byte orders: the same content written in the other order, in every layout
    for (k, name) in all_sites().iter().enumerate().filter(|(_, s)| (s.orders || s.morders) && !s.heavy).map(|(k, s)| (k, s.name.clone())).collect::<Vec<_>>() {
        v.push(job(format!("byte orders of {}", name), move |ctx: &mut Ctx| {
            let all = all_sites(); let s = &all[k];
            let light = name.contains("KDC") || name.contains("NRW") || name.contains("DCS");
            for orient in [if s.orients { 6 } else { 0 }] { for big in [false, true] { for mbig in [false, true] {
                if (big && !s.orders) || (mbig && !s.morders) { continue; }
                let (d, e) = match (s.build)(&s.def, Opt { big, mbig, orient }) { Some(x) => x, None => continue };
                ctx.explore(0, |ch, ctx| {
                    let mut l = if thorough() { layout(ch, big, !tail_bound(&s.name), light) } else { let mut l = Layout::std(big); l.order = ch.choose(4) as u8; l.values_first = ch.flag(); l.blobs_first = !tail_bound(&s.name) && ch.flag(); l.unknown = ch.choose(4) as u8; l };
                    l.big = big;
                    let (b, _) = d.build(Some(&l));
                    one(ctx, &b, &e, &|| format!("{} container {} maker note {} laid out as {:?}", s.name, if big { "MM" } else { "II" }, if mbig { "MM" } else { "II" }, l));
                });
            } } }
        }));
    }
    // every rotation and every neighbour swap of the entries of each directory happens in `order`; integer widths per tag
    for (k, (name, _)) in names.iter().enumerate() {
        let name = name.clone();
        v.push(job(format!("integer types of {}", name), move |ctx: &mut Ctx| {
            let all = all_samples();
            let s = all.iter().filter(|s| !s.heavy && !matches!(s.doc, Doc::B(_))).nth(k).unwrap();
            let (b, f) = s.doc.fields();
            let ents: Vec<(usize, bool, u16)> = f.iter().filter(|f| f.what.starts_with("tag ")).map(|f| (f.pos, f.big, r16(&b, f.pos, f.big))).collect();
            let val = |b: &[u8], at: usize, big: bool| -> Option<u32> { if r32(b, at + 4, big) != 1 { return None; } match r16(b, at + 2, big) { 3 => Some(r16(b, at + 8, big) as u32), 4 => Some(r32(b, at + 8, big)), _ => None } };
            let put = |b: &mut [u8], at: usize, big: bool, typ: u16, v: u32| { p16(b, at + 2, big, typ); for i in 0..4 { b[at + 8 + i] = 0; } match typ { 1 => b[at + 8] = v as u8, 3 | 8 => p16(b, at + 8, big, v as u16), _ => p32(b, at + 8, big, v) } };
            let fits = |t: u16, v: u32| match t { 1 => v < 256, 3 => v < 65536, 8 => v < 32768, 9 => v < 1 << 31, _ => true };
            for &t in &[1u16, 3, 4, 8, 9] {
                let mut all = b.clone();
                for &(at, big, tag) in &ents { if let Some(x) = val(&b, at, big) { if fits(t, x) {
                    let mut y = b.clone(); put(&mut y, at, big, t, x);
                    one(ctx, &y, &s.exp, &|| format!("{} with tag {:#x} stored with type {}", s.name, tag, t));
                    put(&mut all, at, big, t, x);
                } } }
                one(ctx, &all, &s.exp, &|| format!("{} with every integer stored with type {} where it fits", s.name, t));
            }
        }));
    }
    // values that need more than 16 bits: the raw data beyond 64 kB (and 16 MB), its offset in every integer type
    for part in 0..4usize { v.push(job(format!("raw data far into the file, offsets in every integer type, part {}", part), move |ctx: &mut Ctx| {
        let all = all_samples();
        let ats: &[(usize, usize)] = [&[(0x8000usize, 1usize), (0x10000, 1), (0x12345, 1)][..], &[(0x1000000, 5)], &[(0x1000010, 5)], &[(0x2000004, 17), (0x4000002, 29)]][part];
        for &(at, every) in ats {
            let mut k = 0;
            for s in all.iter().filter(|s| !s.heavy && !matches!(s.doc, Doc::B(_))) {
                let mut d = s.doc.clone();
                let iiq = match d { Doc::T(ref t, _) => { if t.blobs.is_empty() || !t.pre.is_empty() && !t.pre.starts_with(b"IIII") { continue; } !t.pre.is_empty() } Doc::Raf(_) => false, _ => continue };
                k += 1;
                // (files with more than one directory in the chain: always)
                let chained = match d { Doc::T(ref t, _) => t.ifds.len() > 1, _ => false };
                if k % every != part % every && !(chained && part == 1) { continue; }
                let mut l = match s.doc { Doc::T(_, ref l) => l.clone(), Doc::Raf(ref r) => r.l1.clone(), _ => continue };
                l.blobs_first = false;
                let lay = if let Doc::Raf(_) = d { None } else { Some(&l) };
                let (b0, _) = d.build(lay);
                if b0.len() + 64 > at { continue; }
                // junk in front of everything
                match d { Doc::Raf(ref mut r) => r.pad = at - 160, _ => { let t = d.tiff(); let n = t.pre.len(); t.pre.extend(vec![0x5a; at - 8 - n]) } }
                let (b, f) = d.build(lay);
                one(ctx, &b, &s.exp, &|| format!("{} behind {:#x} bytes", s.name, at));
                if iiq { continue; }
                let ents: Vec<(usize, bool, u16)> = f.iter().filter(|f| f.what.starts_with("tag ")).map(|f| (f.pos, f.big, r16(&b, f.pos, f.big))).collect();
                for typ in [9u16, 13, 4] {
                    let mut y = b.clone(); let mut n = 0;
                    for &(p, big, tag) in &ents { if r32(&b, p + 4, big) == 1 && r16(&b, p + 2, big) == 4 && [0x111u16, 0x144, 0x118, 0x14a, 0x8769].contains(&tag) { p16(&mut y, p + 2, big, typ); n += 1; } }
                    if n > 0 { one(ctx, &y, &s.exp, &|| format!("{} behind {:#x} bytes with offsets of type {}", s.name, at, typ)); }
                }
            }
            if part == 0 { continue; }
            // a DNG whose directories are chained, everything but the first far away, and an MRW file with a large block
            let (w, h) = (4usize, 2usize); let px = px(w, h, 16, 3);
            for big in [false, true] {
                let mut d = mkdng(w, h, &px, big);
                let r = dng_raw(&mut d).clone();
                { let t = d.tiff(); t.ifds[0].del(0x14a); t.ifds[0].put(0xd123, V::U(vec![0x33; at])); t.ifds.push(Ifd::new().l(0xfe, 1)); t.ifds.push(r); }
                one(ctx, &d.bytes(), &dng_exp(w, h, 1, px.clone()), &|| format!("DNG with chained directories behind {:#x} bytes", at));
            }
            for s in all.iter().filter(|s| s.name.starts_with("MRW") && !s.heavy).take(2) {
                let mut b = s.doc.bytes();
                let n = r32(&b, 4, true) as usize + at + 8; p32(&mut b, 4, true, n as u32);
                let mut blk = b"\0XYZ".to_vec(); blk.extend((at as u32).to_be_bytes()); blk.extend(vec![0x41; at]);
                b.splice(8..8, blk);
                one(ctx, &b, &s.exp, &|| format!("{} with a block of {:#x} bytes in front", s.name, at));
            }
        }
    })); }
    // directories with many entries that mean nothing to the library
    v.push(job("directories of up to 4000 entries", |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize); let s = px(w, h, 16, 3);
        let e = dng_exp(w, h, 1, s.clone());
        for n in q(vec![50usize, 127, 128, 200, 255, 256, 257, 300, 399, 400, 401, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2049, 3000, 3900, 3970], (1..3970).step_by(13).collect()) { for place in 0..4 {
            let mut d = mkdng(w, h, &s, n & 1 != 0);
            let more: Vec<(u16, V)> = (0..n).map(|i| (0xd000 + i as u16, if i % 50 == 7 { V::L(vec![1, 2, i as u32]) } else { V::S(vec![i as u16]) })).collect();
            match place {
                0 => for m in more { d.tiff().ifds[0].e.push(m); },
                1 => for (i, m) in more.into_iter().enumerate() { d.tiff().ifds[0].e.insert(i, m); },
                2 => for m in more { dng_raw(&mut d).e.push(m); },
                _ => for (i, m) in more.into_iter().enumerate() { dng_raw(&mut d).e.insert(i, m); },
            }
            let b = d.bytes();
            one(ctx, &b, &e, &|| format!("DNG with {} unknown entries in place {}", n, place));
        } }
    }));
    // arrays of integers in a DNG: inline as shorts or bytes, out of line as longs
    v.push(job("DNG integer arrays inline and out of line", |ctx: &mut Ctx| {
        let (w, h) = (6usize, 4usize); let s = px(w, h, 16, 2);
        for big in [false, true] { ctx.explore(0, |ch, ctx| {
            let mut d = mkdng(w, h, &s, big);
            let r = dng_raw(&mut d);
            let n = ch.of(&[1usize, 2, 4]);
            let bl: Vec<u32> = (0..n as u32).map(|i| 20 + i).collect();
            r.put(0xc61a, match ch.choose(5) { 0 => V::B(bl.iter().map(|&x| x as u8).collect()), 1 => V::S(bl.iter().map(|&x| x as u16).collect()), 2 => V::L(bl.clone()), 3 => V::R(bl.iter().map(|&x| (x, 1)).collect()), _ => V::R(bl.iter().map(|&x| (x * 3, 3)).collect()) });
            let aa = [1u32, 2, 3, 5];
            r.put(0xc68d, match ch.choose(3) { 0 => V::B(aa.iter().map(|&x| x as u8).collect()), 1 => V::S(aa.iter().map(|&x| x as u16).collect()), _ => V::L(aa.to_vec()) });
            r.set(0x828e, V::B(vec![2, 1, 1, 0]));
            r.set(0xc61d, match ch.choose(2) { 0 => V::S(vec![4000]), _ => V::L(vec![4000]) });
            let mut e = dng_exp(w, h, 1, s.clone());
            e.black = if n < 4 { [20; 4] } else { [20, 21, 22, 23] };
            e.crops = [1, w - 5, h - 3, 2]; e.pattern = "BGGR".into();
            let mut l = Layout::std(big); l.order = ch.choose(4) as u8; l.values_first = ch.flag(); l.blobs_first = ch.flag(); l.pad = ch.of(&[0, 3]);
            let (b, _) = d.build(Some(&l));
            one(ctx, &b, &e, &|| format!("DNG arrays variant {:?} {:?}", ch.choices(), l));
        }); }
    }));
    // unknown tags of every number and type, with arbitrary contents
    for part in 0..4u32 { v.push(job(format!("unknown tag numbers, part {}", part), move |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize); let s = px(w, h, 16, 3);
        let e = dng_exp(w, h, 1, s.clone());
        for tag in (part..65536).step_by(4) {
            if KNOWN.contains(&(tag as u16)) { continue; }
            let mut d = mkdng(w, h, &s, tag & 4 != 0);
            let x = mix(tag as usize, 1, 1);
            let val = match x % 4 { 0 => V::L(vec![x]), 1 => V::U((0..9).map(|i| (x >> i) as u8).collect()), 2 => V::R(vec![(x, 0)]), _ => V::S(vec![3, 2, 1]) };
            if x & 64 != 0 { dng_raw(&mut d).put(tag as u16, val); } else { d.tiff().ifds[0].e.insert(0, (tag as u16, val)); }
            let b = d.bytes();
            one(ctx, &b, &e, &|| format!("DNG with the unknown tag {:#x}", tag));
        }
    })); }
    v.push(job("unknown tags with arbitrary types, counts and offsets", |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize); let s = px(w, h, 16, 3);
        let e = dng_exp(w, h, 1, s.clone());
        for big in [false, true] { for typ in (0..=20u16).chain([255, 256, 0x8000, 65535]) { for cnt in [0u32, 1, 2, 4, 5, 8, 100, 65536, 0x7fffffff, 0x80000000, u32::MAX] { for val in [0u32, 1, 8, 0x100, 0xffff, 0x7fffffff, u32::MAX] { for at in 0..2 {
            let d = { let mut d = mkdng(w, h, &s, big); let i = if at == 0 { &mut d.tiff().ifds[0] } else { dng_raw(&mut d) }; i.e.insert(1, (0xfe77, V::L(vec![val]))); d };
            let (mut b, f) = d.fields();
            let p = f.iter().find(|f| f.what == "type of fe77").unwrap().pos;
            p16(&mut b, p, big, typ); p32(&mut b, p + 2, big, cnt);
            one(ctx, &b, &e, &|| format!("DNG with an unknown tag of type {} count {:#x} value {:#x}", typ, cnt, val));
        } } } } }
    }));
    // repeated tags: the first in directory order decides
    v.push(job("repeated tags across directories", |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize); let s = px(w, h, 16, 4);
        for big in [false, true] { for present in 0..64u32 { for which in 0..3 { for order in 0..2u8 {
            // directories: 0 = first, 1 = its raw sub-directory, 2 = below 1 (Exif), 3 = second sub-directory, 4 = next, 5 = below 4
            let put = |i: &mut Ifd, n: u32| if present >> n & 1 != 0 { match which { 0 => i.put(0x112, V::S(vec![n as u16 + 1])), 1 => i.put(0xc628, V::R(vec![(n + 1, 8), (1, 1), (1, 2)])), _ => i.put(0xc622, V::SR(vec![(n as i32 + 1, 10); 9])) } };
            let mut d = mkdng(w, h, &s, big);
            let raw = { let r = dng_raw(&mut d); put(r, 1); let mut b = Ifd::new().l(0xfe, 1); put(&mut b, 2); r.put(0x8769, V::Ifds(vec![b])); r.clone() };
            let mut c = Ifd::new().l(0xfe, 1); put(&mut c, 3);
            let mut n4 = Ifd::new().l(0xfe, 1); put(&mut n4, 4);
            let mut n5 = Ifd::new().l(0xfe, 1); put(&mut n5, 5);
            n4.put(0x14a, V::Ifds(vec![n5]));
            { let t = d.tiff(); t.ifds[0].set(0x14a, V::Ifds(vec![raw, c])); put(&mut t.ifds[0], 0); t.ifds.push(n4); }
            let mut e = dng_exp(w, h, 1, s.clone());
            if let Some(n) = (0..6u32).find(|n| present >> n & 1 != 0) { match which { 0 => e.orient = n as u16 + 1, 1 => e.wb = [8.0 / (n as f32 + 1.0), 1.0, 2.0, NAN], _ => { e.matrix = [[(n as f32 + 1.0) / 10.0; 3]; 4]; e.matrix[3] = [0.0; 3]; } } }
            let mut l = Layout::std(big); l.order = order; l.values_first = present & 1 != 0; l.blobs_first = present & 2 != 0;
            let (b, _) = d.build(Some(&l));
            one(ctx, &b, &e, &|| format!("DNG with {} in the directories {:06b} (bit 0 first) order {}", ["Orientation", "AsShotNeutral", "ColorMatrix2"][which], present, order));
        } } } }
    }));
    // the first directory that holds the raw image counts, whatever stands before and after it
    v.push(job("DNG previews before and after the raw directory", |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize);
        let sa = px(w, h, 16, 5);
        let (wb, hb) = (6usize, 3usize); let sb = px(wb, hb, 16, 6);
        for big in [false, true] { for place in 0..3 { for n in 1..=4usize { for code in 0..4usize.pow(n as u32) {
            let kinds: Vec<usize> = (0..n).map(|i| code / 4usize.pow(i as u32) % 4).collect();
            let first = match kinds.iter().find(|&&k| k >= 2) { Some(&k) => k, None => continue };
            let mut d = mkdng(w, h, &sa, big);
            let ra = dng_raw(&mut d).clone();
            let blob = d.tiff().blob(w16(big, &sb));
            let pv = d.tiff().blob(vec![0xff, 0xd8, 0xff, 0xd9]);
            let mk = |k: usize| match k {
                0 => strip(Ifd::new().l(0xfe, 1), 100, 70, 7, 8, pv, 4).s(0x106, 6).s(0x115, 3),
                1 => strip(Ifd::new(), 100, 70, 6, 8, pv, 4).s(0x106, 6).s(0x115, 3),
                2 => ra.clone(),
                _ => strip(Ifd::new().l(0xfe, 0), wb, hb, 1, 16, blob, wb * hb * 2).s(0x106, 32803).s(0x115, 1).t(0x828e, V::B(vec![0, 1, 1, 2])).t(0xc61d, V::L(vec![4000])),
            };
            let ifds: Vec<Ifd> = kinds.iter().map(|&k| mk(k)).collect();
            { let t = d.tiff(); match place {
                0 => t.ifds[0].set(0x14a, V::Ifds(ifds)),
                1 => { t.ifds[0].del(0x14a); t.ifds.extend(ifds); }
                _ => { t.ifds[0].del(0x14a); let mut it = ifds.into_iter(); let f = it.next().unwrap(); for e in f.e { t.ifds[0].put(e.0, e.1); } let rest: Vec<Ifd> = it.collect(); if !rest.is_empty() { t.ifds[0].put(0x14a, V::Ifds(rest)); } }
            } }
            let e = if first == 2 { dng_exp(w, h, 1, sa.clone()) } else { dng_exp(wb, hb, 1, sb.clone()) };
            let b = d.bytes();
            one(ctx, &b, &e, &|| format!("DNG with directories {:?} (0 preview, 1 other compression, 2 and 3 raw) placed {}", kinds, place));
        } } } }
    }));
    // a preview has the same tags as the raw image, in the first directory or beside the raw one: the raw image's own count
    v.push(job("DNG previews with their own levels, areas and patterns", |ctx: &mut Ctx| {
        let (w, h) = (6usize, 4usize);
        let sa = px(w, h, 16, 5);
        for big in [false, true] { for place in 0..4 { for dec in 1..1u32 << 10 {
            if dec.count_ones() > 2 && dec + 1 < 1 << 10 && !thorough() { continue; }
            let mut d = mkdng(w, h, &sa, big);
            { let r = dng_raw(&mut d); r.put(0xc68d, V::S(vec![1, 2, 3, 5])); r.put(0xc61a, V::S(vec![10, 20, 30, 40])); }
            let ra = dng_raw(&mut d).clone();
            let pv = d.tiff().blob(vec![0xff, 0xd8, 0xff, 0xd9]);
            let comp = if dec & 1 << 9 != 0 { 1 } else { 6 };
            let mut pr = strip(Ifd::new().l(0xfe, 1), 2, 1, comp, 8, pv, 4).s(0x106, 6).s(0x115, 3);
            if dec & 1 != 0 { pr.put(0xc61d, V::S(vec![255, 255, 255])); }
            if dec & 2 != 0 { pr.put(0xc61a, V::S(vec![3])); }
            if dec & 4 != 0 { pr.put(0xc68d, V::L(vec![0, 0, 1, 2])); }
            if dec & 8 != 0 { pr.put(0x828e, V::B(vec![2, 1, 1, 0])); pr.put(0x828d, V::S(vec![2, 2])); }
            if dec & 16 != 0 { pr.put(0x142, V::L(vec![16])); pr.put(0x143, V::L(vec![16])); pr.put(0x144, V::Off(vec![(pv, 0)])); }
            if dec & 32 != 0 { pr.set(0x106, V::S(vec![34892])); }
            if dec & 64 != 0 { pr.put(0xc618, V::S((0..256u32).map(|x| (x * 200) as u16).collect())); }
            if dec & 128 != 0 { pr.put(0xc61a, V::R(vec![(9, 1), (8, 1), (7, 1), (6, 1)])); }
            if dec & 256 != 0 { pr.put(0x116, V::L(vec![1])); pr.put(0x11c, V::S(vec![1])); }
            { let t = d.tiff(); match place {
                0 => { for (k, v) in pr.e { t.ifds[0].put(k, v); } }
                1 => t.ifds[0].set(0x14a, V::Ifds(vec![pr, ra])),
                2 => t.ifds[0].set(0x14a, V::Ifds(vec![ra, pr])),
                _ => { t.ifds[0].del(0x14a); t.ifds.push(pr); t.ifds.push(ra); }
            } }
            let mut e = dng_exp(w, h, 1, sa.clone()); e.crops = [1, w - 5, h - 3, 2]; e.black = [10, 20, 30, 40];
            let b = d.bytes();
            one(ctx, &b, &e, &|| format!("DNG with a preview {} that has its own {:09b} (1 white level, 2 black level, 4 active area, 8 pattern, 16 tiles, 32 linear, 64 table, 128 four black levels, 256 rows per strip, 512 uncompressed)", ["in the first directory", "before the raw directory", "after the raw directory", "chained before the raw directory"][place], dec));
        } } }
    }));
    // the first directory describes a thumbnail, the raw image is in a directory below
    v.push(job("thumbnail tags in the first directory", |ctx: &mut Ctx| {
        for s in all_samples().iter().filter(|s| !s.heavy && matches!(s.doc, Doc::T(..))) {
            for kind in 1..16u32 {
                let mut d = s.doc.clone();
                let lay = match s.doc { Doc::T(_, ref l) => l.clone(), _ => continue };
                { let t = d.tiff();
                  let has = |k: u16| t.ifds[0].e.iter().any(|e| e.0 == k);
                  if has(0x100) || has(0x118) || has(2) { continue; }
                  let i = &mut t.ifds[0];
                  if kind & 1 != 0 { i.put(0x100, V::L(vec![2])); i.put(0x101, V::L(vec![1])); }
                  if kind & 2 != 0 { i.put(0x102, V::S(vec![8, 8, 8])); i.put(0x115, V::S(vec![3])); }
                  if kind & 4 != 0 { i.put(0x106, V::S(vec![2])); }
                  if kind & 8 != 0 { i.put(0x103, V::S(vec![6])); } }
                let (b, _) = d.build(Some(&lay));
                one(ctx, &b, &s.exp, &|| format!("{} with thumbnail tags {:04b} (1 size, 2 samples, 4 photometric, 8 compression) in the first directory", s.name, kind));
            }
        }
    }));
    // JPEG previews beside the raw image in the list of sub-directories
    v.push(job("JPEG previews among the sub-directories", |ctx: &mut Ctx| {
        for s in all_samples().iter().filter(|s| !s.heavy && matches!(s.doc, Doc::T(..))) {
            for kind in 0..4u32 { for place in 1..4 {
                let mut d = s.doc.clone();
                let lay = match s.doc { Doc::T(_, ref l) => l.clone(), _ => continue };
                { let t = d.tiff(); let pv = t.blob(vec![0xff, 0xd8, 0xff, 0xd9]);
                  let mk = |w: u32| { let mut i = Ifd::new().l(0xfe, 1).l(0x100, w).l(0x101, w / 2).s(0x103, 6).t(0x201, V::Off(vec![(pv, 0)])).l(0x202, 4);
                    if kind & 1 != 0 { i.put(0x102, V::S(vec![8, 8, 8])); i.put(0x115, V::S(vec![3])); } if kind & 2 != 0 { i.put(0x106, V::S(vec![6])); i.put(0x213, V::S(vec![2])); } i };
                  let mut done = false;
                  for e in t.ifds[0].e.iter_mut() { if e.0 == 0x14a { if let V::Ifds(ref mut v) = e.1 { if place & 1 != 0 { v.insert(0, mk(160)); } if place & 2 != 0 { v.push(mk(640)); } done = true; } } }
                  if !done { continue; } }
                let (b, _) = d.build(Some(&lay));
                one(ctx, &b, &s.exp, &|| format!("{} with JPEG previews (kind {}) {} the raw image", s.name, kind, ["", "before", "after", "before and after"][place]));
            } }
        }
    }));
    // a thumbnail directory at the end of the chain, as Exif has it
    v.push(job("a thumbnail directory at the end of the chain", |ctx: &mut Ctx| {
        for s in all_samples().iter().filter(|s| !s.heavy && matches!(s.doc, Doc::T(..))) {
            for kind in 0..3 {
                let mut d = s.doc.clone();
                let lay = match s.doc { Doc::T(_, ref l) => l.clone(), _ => continue };
                { let t = d.tiff(); let pv = t.blob(vec![0xff, 0xd8, 0xff, 0xd9]);
                  let mut i = Ifd::new().l(0x100, 160).l(0x101, 120).s(0x103, 6).t(0x11a, V::R(vec![(72, 1)])).t(0x11b, V::R(vec![(72, 1)])).s(0x128, 2).t(0x201, V::Off(vec![(pv, 0)])).l(0x202, 4);
                  if kind > 0 { i.put(0x102, V::S(vec![8, 8, 8])); i.put(0x106, V::S(vec![6])); i.put(0x115, V::S(vec![3])); }
                  if kind > 1 { i.put(0xfe, V::L(vec![1])); }
                  t.ifds.push(i); }
                let (b, _) = d.build(Some(&lay));
                one(ctx, &b, &s.exp, &|| format!("{} with a thumbnail directory (kind {}) at the end of the chain", s.name, kind));
            }
        }
    }));
    // many directories, far away
    v.push(job("many directories", |ctx: &mut Ctx| {
        let (w, h) = (4usize, 2usize); let s = px(w, h, 16, 7);
        let e = dng_exp(w, h, 1, s.clone());
        for big in [false, true] { for n in 0..q(40, 90) { for place in 0..4 {
            let mut d = mkdng(w, h, &s, big);
            let pvs: Vec<Ifd> = (0..n).map(|i| Ifd::new().l(0xfe, 1).l(0x100, i as u32)).collect();
            if place == 0 { d.tiff().ifds.extend(pvs); }
            else if place == 2 { let r = dng_raw(&mut d).clone(); let t = d.tiff(); t.ifds[0].del(0x14a); t.ifds.extend(pvs); t.ifds.push(r); }
            else if place == 3 { let r = dng_raw(&mut d).clone(); let t = d.tiff(); t.ifds[0].del(0x14a); t.ifds.extend(pvs); t.ifds.push(Ifd::new().l(0xfe, 1).t(0x14a, V::Ifds(vec![r]))); }
            else { let r = dng_raw(&mut d).clone(); let mut x = pvs; x.push(r); d.tiff().ifds[0].set(0x14a, V::Ifds(x)); }
            let b = d.bytes();
            one(ctx, &b, &e, &|| format!("DNG with {} further directories placed {}", n, place));
        } } }
    }));
    v.push(job("version numbers in maker note names", |ctx: &mut Ctx| {
        let all = all_samples();
        for s in all.iter().filter(|s| !s.heavy) { let t = match s.doc { Doc::T(ref t, _) => t, _ => continue };
            let n = { let mut n = None; for i in &t.ifds { maker(i, &mut n); } match n { Some(n) => n, None => continue } };
            let vary: &[usize] = if n.starts_with(b"Nikon") { &[7, 8, 9] } else if n.starts_with(b"OLYMPUS") { &[10, 11] } else if n.starts_with(b"OLYMP") { &[6, 7] } else if n.starts_with(b"EPSON") { &[5, 6, 7] } else if n.starts_with(b"PENTAX") { &[6, 7] } else { &[] };
            let (b, _) = s.doc.build(None);
            let at: Vec<usize> = (0..b.len() - n.len()).filter(|&i| b[i..i + n.len()] == n[..]).collect();
            if at.len() != 1 { continue; }
            for &k in vary { for x in q((0..8u8).chain([0x10, 0x11, 0x20, 0x30, 0x49, 0x4d, 0x80, 0xff]).collect::<Vec<_>>(), (0..=255).collect()) {
                let mut y = b.clone(); y[at[0] + k] = x;
                one(ctx, &y, &s.exp, &|| format!("{} with byte {} of the maker note name set to {:#x}", s.name, k, x));
            } }
        }
    }));
    v.push(job("RAF directories of up to 4000 entries", |ctx: &mut Ctx| {
        let all = all_samples();
        for s in all.iter().filter(|s| !s.heavy) { if let Doc::Raf(_) = s.doc {
            for n in [1usize, 10, 20, 39, 40, 41, 100, 127, 128, 129, 255, 256, 257, 400, 1000, 2000, 3997] { for place in 0..3 { for len in [0usize, 1, 4, 7, 30] {
                let mut d = s.doc.clone();
                if let Doc::Raf(ref mut r) = d {
                    let more = (0..n).map(|i| (0xd000 + i as u16, vec![i as u8; len]));
                    match place { 0 => r.fuji.extend(more), 1 => { let old = std::mem::replace(&mut r.fuji, more.collect()); r.fuji.extend(old); } _ => for (i, m) in more.enumerate() { r.fuji.insert(i.min(r.fuji.len()) / 2, m); } }
                }
                let b = d.bytes();
                one(ctx, &b, &s.exp, &|| format!("{} with {} unknown entries of {} bytes in place {}", s.name, n, len, place));
            } } }
            for len in [127usize, 128, 251, 252, 255, 256, 257, 1020, 1024, 2048, 4091, 4092, 4093, 4096, 8188, 8192, 16384, 32763, 32764, 32767, 32768, 65500, 65531] { for place in 0..3 {
                let mut d = s.doc.clone();
                if let Doc::Raf(ref mut r) = d { match place { 0 => r.fuji.insert(0, (0xc000, vec![0x5b; len])), 1 => { let n = r.fuji.len() / 2; r.fuji.insert(n, (0xc000, vec![0x5b; len])) } _ => for i in 0..3 { r.fuji.insert(0, (0xc000 + i, vec![0x5b; len])) } } }
                let b = d.bytes();
                one(ctx, &b, &s.exp, &|| format!("{} with an unknown entry of {} bytes in place {}", s.name, len, place));
            } }
        } }
    }));
    for part in 0..4usize { v.push(job(format!("CIFF heaps, part {}", part), move |ctx: &mut Ctx| {
        let c = harness::camdb::Db::load().cam("Canon", "Canon EOS 10D", "");
        let (w, h) = ((c.crops[1] + c.crops[3]).max(c.areav.0 + c.areav.1) / 8 * 8 + 16, (c.crops[0] + c.crops[2] + c.areah.0 + c.areah.1 + 15) / 8 * 8);
        let mut b = harness::bits::Bits::new();
        let mut blocks = Vec::new();
        for n in 0..w * h / 64 { let mut d = [0i32; 64]; for i in 1..64 { d[i] = (mix(n, i, 1) % 7) as i32 - 3; } harness::enc::crw_block(&mut b, 0, &d).unwrap(); blocks.push(d); }
        let lows: Vec<u8> = (0..w * h / 4).map(|i| mix(i, 1, 5) as u8).collect();
        let data: Vec<u16> = harness::enc::crw_samples(w, h, &blocks).iter().enumerate().map(|(i, &y)| y << 2 | (lows[i / 4] >> (i % 4 * 2) & 3) as u16).collect();
        let wbt: Vec<u16> = vec![9; c.wb_offset].into_iter().chain([10, 20, 30, 40, 50, 60, 70, 80]).collect();
        let (es, p) = crw_parts(&c.model, w, h, 0, Some(&lows), &b.jpeg(), &wbt);
        let e = Exp::cam(&c, w, h, data, [10.0, 20.0, 40.0, NAN]);
        let put = |ctx: &mut Ctx, es: &[(u16, Cv)], what: &dyn Fn() -> String| { let y = ciff(es, &p).bytes(); one(ctx, &y, &e, what) };
        const SUBS: [u16; 6] = [0x2807, 0x300a, 0x2804, 0x300b, 0x3003, 0x2fff];
        match part {
            // any order, any division among heaps below (bit set: that entry lies in a heap of its own), before or after the others
            0 => for perm in 0..24usize {
                let mut left: Vec<usize> = (0..4).collect(); let mut k = perm; let mut ord = vec![];
                for n in (1..=4).rev() { ord.push(left.remove(k % n)); k /= n; }
                for set in 0..16u32 { for how in 0..3 {
                    let mut l: Vec<(u16, Cv)> = vec![]; let mut below: Vec<(u16, Cv)> = vec![];
                    for (n, &i) in ord.iter().enumerate() { if set >> i & 1 == 0 { l.push(es[i].clone()); } else if how == 0 { l.push((SUBS[n], Cv::Sub(vec![es[i].clone()]))); } else { below.push(es[i].clone()); } }
                    if how == 1 && !below.is_empty() { l.insert(0, (0x300a, Cv::Sub(below))); } else if how == 2 && !below.is_empty() { l.push((0x2807, Cv::Sub(vec![(0x300b, Cv::Sub(below))]))); }
                    put(ctx, &l, &|| format!("CRW entries in order {:?}, those of {:04b} in heaps below ({})", ord, set, how));
                } }
            },
            // depth, entry by entry
            1 => for depth in 0..9usize { for set in 1..16u32 { for tag in SUBS {
                let (mut l, mut below): (Vec<_>, Vec<_>) = (vec![], vec![]);
                for i in 0..4 { if set >> i & 1 == 0 { l.push(es[i].clone()) } else { below.push(es[i].clone()) } }
                for d in 0..depth { below = vec![(tag, Cv::Sub(below)), (0x0820 + d as u16, Cv::D(vec![d as u8; d]))]; }
                l.extend(below);
                put(ctx, &l, &|| format!("CRW entries of {:04b} in {} nested heaps of type {:#x}", set, depth, tag));
            } } },
            // inline values, longer values, entries without meaning
            2 => {
                for inl in 0..4 { for more in [0usize, 1, 2, 7, 30, 255, 4000] { for fill in [0u8, 0x41, 0xff] {
                    let mut l = es.clone();
                    if inl & 1 != 0 { l[1].1 = Cv::Inline([34, 0, w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8, fill, fill]); l[1].0 |= 0x4000; }
                    else if let Cv::D(ref mut d) = l[1].1 { d.truncate(6); d.extend(vec![fill; more]); }
                    if inl & 2 != 0 { l[2].1 = Cv::Inline([0, 0, 0, 0, fill, fill, fill, fill]); l[2].0 |= 0x4000; }
                    else if let Cv::D(ref mut d) = l[2].1 { d.truncate(4); d.extend(vec![fill; more]); }
                    if let Cv::D(ref mut d) = l[0].1 { d.extend(vec![fill; more]); }
                    if let Cv::D(ref mut d) = l[3].1 { d.extend(vec![fill; more]); }
                    put(ctx, &l, &|| format!("CRW with inline values {:02b} and values longer by {} of {:#x}", inl, more, fill));
                } } }
                for n in [0xffffusize, 0x10000, 0x12345, 0xffffff, 0x1000003, 0x2100000] { for place in 0..4 {
                    let junk = (0x0901, Cv::D(vec![0x41; n]));
                    let mut l = es.clone();
                    match place { 0 => l.insert(0, junk), 1 => l.insert(2, junk), 2 => { let b = l.split_off(1); let mut x = vec![junk]; x.extend(b); l.push((0x300a, Cv::Sub(x))); } _ => { let b = l.split_off(1); l.insert(0, (0x2807, Cv::Sub(vec![junk]))); l.push((0x300a, Cv::Sub(b))); } }
                    put(ctx, &l, &|| format!("CRW with an entry of {:#x} bytes in place {}", n, place));
                } }
                for n in [1usize, 2, 10, 100, 255, 256, 257, 1000, 5000, 20000] { for place in 0..3 { for kind in 0..3 {
                    let more = (0..n).map(|i| match kind { 0 => (0x0900 + (i % 200) as u16, Cv::D(vec![i as u8; i % 5])), 1 => (0x5100 + (i % 200) as u16, Cv::Inline([i as u8; 8])), _ => if i % 100 == 0 { (0x2808, Cv::Sub(vec![(0x0901, Cv::D(vec![1, 2, 3]))])) } else { (0x1901 + (i % 100) as u16, Cv::D(vec![9; 4])) } });
                    let mut l: Vec<(u16, Cv)> = match place { 0 => more.collect(), 1 => vec![], _ => vec![(0x2807, Cv::Sub(more.collect()))] };
                    let later: Vec<(u16, Cv)> = if place == 1 { (0..n).map(|i| (0x0900 + (i % 250) as u16, Cv::D(vec![i as u8; i % 3]))).collect() } else { vec![] };
                    l.extend(es.clone()); l.extend(later);
                    put(ctx, &l, &|| format!("CRW with {} further entries of kind {} in place {}", n, kind, place));
                } } }
            }
            // repeated entries: the heap's own before those of the heaps below, these in their order
            _ => for (k, wrong) in [(3usize, Cv::D((0..60u16).flat_map(|i| (700 + i).to_le_bytes()).collect())), (1, Cv::D([34u16, 8, 8, 1, 1, 0, 0].iter().flat_map(|x| x.to_le_bytes()).collect())), (0, Cv::D(b"Canon\0Canon EOS D60\0".to_vec())), (2, Cv::D(2u32.to_le_bytes().to_vec()))] {
                let bad = (es[k].0, wrong);
                for nest in 1..5usize { for first in [false, true] { for at in 0..4 {
                    let mut b2 = vec![bad.clone()];
                    for _ in 0..nest { b2 = vec![(0x300a, Cv::Sub(b2))]; }
                    let mut l = es.clone();
                    match at {
                        // the right one in the heap itself
                        0 => if first { l.insert(0, b2.remove(0)); } else { l.push(b2.remove(0)); },
                        // the right one one level down, the wrong one in the same heap below or after
                        1 => { let good = l.remove(k); let mut below = vec![good]; if first { below.insert(0, b2.remove(0)); } else { below.push(b2.remove(0)); } l.push((0x2807, Cv::Sub(below))); }
                        // two heaps
                        2 => { let good = l.remove(k); l.push((0x2807, Cv::Sub(vec![good]))); if first { l.push((0x300b, Cv::Sub(vec![bad.clone()]))); } else { l.push(b2.remove(0)); } }
                        _ => { let good = l.remove(k); let mut g = vec![good]; for _ in 0..nest { g = vec![(0x300a, Cv::Sub(g))]; } l.insert(0, g.remove(0)); l.push((0x2807, Cv::Sub(vec![bad.clone()]))); }
                    }
                    put(ctx, &l, &|| format!("CRW with a second entry {:#x}, nested {} deep, first {}, arrangement {}", es[k].0, nest, first, at));
                } } }
            },
        }
    })); }
    // files without a byte to spare: nothing behind the sample data, the metadata blocks or the last value
    v.push(job("files without a byte to spare", |ctx: &mut Ctx| {
        harness::bits::TIGHT.store(true, std::sync::atomic::Ordering::SeqCst);
        let all = harness::samples::samples();
        for s in all.iter().filter(|s| !s.heavy) {
            one(ctx, &s.doc.bytes(), &s.exp, &|| format!("{} without spare bytes", s.name));
            let (n, l) = match s.doc { Doc::T(ref t, ref l) => (t.blobs.len(), l.clone()), Doc::Raf(ref r) => (0, r.l1.clone()), _ => continue };
            for last in 0..=n { for first in [false, true] { for values in [false, true] { for order in 0..4 {
                let mut l = l.clone(); l.last = last; l.blobs_first = first; l.values_first = values; l.order = order;
                // (these find their data or its length at the end of the file)
                if first && (s.name.starts_with("RW2") || s.name.starts_with("RAF") || s.name.starts_with("SRF")) { continue; }
                one(ctx, &s.doc.build(Some(&l)).0, &s.exp, &|| format!("{} without spare bytes, blob {} last, blobs first {}, values first {}, order {}", s.name, last, first, values, order));
            } } } }
        }
        harness::bits::TIGHT.store(false, std::sync::atomic::Ordering::SeqCst);
    }));
    // every order of the blocks of an MRW file, without and with fillers of several lengths
    v.push(job("every MRW block order", |ctx: &mut Ctx| {
        let db = harness::camdb::Db::load();
        for (mk, md) in [("KONICA MINOLTA", "DYNAX 5D"), ("Minolta Co., Ltd.", "DiMAGE A1")].iter() {
            let c = match db.get(mk, md, "") { Some(c) => c.clone(), None => continue };
            for packed in [false, true].iter() { for order in 10..=250u8 {
                let (w, h) = (8usize, 4usize);
                let s: Vec<u16> = (0..w * h).map(|i| (i * 997 % 4096) as u16).collect();
                let lv = [300u16, 256, 257, 400];
                let sw = c.hints.iter().any(|x| x == "swapped_wb");
                let wb = if sw { [257.0, 300.0, 256.0, NAN] } else { [300.0, 256.0, 400.0, NAN] };
                let mut e = Exp::cam(&c, w, h, s.clone(), wb); e.orient = 3;
                let d = mrw(mk, md, w, h, *packed, &if *packed { harness::fmt::p12be(&s) } else { harness::fmt::w16(true, &s) }, lv, 3, order);
                one(ctx, &d.bytes(), &e, &|| format!("{} {} packed {} block order {}", mk, md, packed, order));
            } }
        }
    }));
    // block orders of the other containers
    v.push(job("MRW block order and IIQ tag order", |ctx: &mut Ctx| {
        for s in all_sites().iter().filter(|s| s.name.starts_with("MRW") || s.name.starts_with("IIQ")) {
            for orient in 0..9 { if let Some((d, e)) = (s.build)(&s.def, Opt { big: false, mbig: false, orient }) { one(ctx, &d.bytes(), &e, &|| s.name.clone()); } }
        }
        let (w, h) = (16, 3); let s = calm(w, h, 100, 20, 17);
        let rows: Vec<Vec<u8>> = s.chunks(w).map(|r| { let mut b = harness::enc::iiq_row(w, r, &|g, _| if g == 0 { Some(9) } else { None }).unwrap(); b.pad(32, false); b.msb32() }).collect();
        for order in 0..3u8 { for torder in 0..3u8 {
            let mut e = Exp::cam(&harness::camdb::Db::load().cam("Phase One A/S", "IQ250", ""), w, h, s.clone(), [1.5, 1.0, 2.0, NAN]); e.black = [100; 4]; e.orient = 3;
            one(ctx, &iiq("IQ250", w, h, rows.clone(), [1.5, 1.0, 2.0], 400, order, torder, 3).bytes(), &e, &|| format!("IIQ row order {} tag order {}", order, torder));
        } }
    }));
    v
}
fn main() {
    run_main(Spec::new("C07", "all combinations of entry order (given, reversed, sorted, rotated), values before or after their directory, data before or after the directories, 4 paddings, 4 unknown-tag placements, integer widening and trailing bytes for every small file of every TIFF-based format and compression; both container and maker-note byte orders; every integer tag individually and jointly as BYTE, SHORT and LONG; every tag number the library does not know, and unknown tags of every type with extreme counts and offsets; all 64 placements of a repeated tag in 6 directories; all sequences of up to 4 preview/raw directories in 3 placements; up to 39 directories chained or nested before the raw one; directories, values and data at odd positions; up to 4000 entries without meaning in TIFF and RAF directories; every version number in maker-note names; files of every kind that end with their last value or their last sample, in every layout; MRW header blocks in every order; CIFF heaps: all orders, divisions among heaps below, depths to 8, inline values, further and repeated entries",
        &["maker notes whose values are addressed relative to fixed positions are moved as a whole"]), jobs)
}
