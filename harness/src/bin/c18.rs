//! C18: the signature, the DNG tag, the maker or the file size decide which decoder reads a file; the rest is an error.
use harness::{camdb::*, chk::mix, fmt::*, run::*, samples::*, tiffb::*};

fn accept(ctx: &mut Ctx, bytes: &[u8], e: &Exp, what: &dyn Fn() -> String) {
    ctx.begin(|| (what(), bytes.to_vec()));
    ctx.states += 1; ctx.transitions += 1;
    match ctx.decode(bytes) {
        Err(m) => ctx.fail("err", &what(), bytes, &format!("decoding failed: {}", m.replace('\n', " "))),
        Ok(i) => { ctx.outcome(hash(&(&i.data, &i.model))); if let Err(m) = cmp_all(&i, e) { ctx.fail("wrong", &what(), bytes, &m); } }
    }
}
fn reject(ctx: &mut Ctx, bytes: &[u8], what: &dyn Fn() -> String) {
    ctx.begin(|| (what(), bytes.to_vec()));
    ctx.states += 1; ctx.transitions += 1;
    match ctx.decode(bytes) {
        Err(_) => ctx.outcome(1),
        Ok(i) => ctx.fail("accepted", &what(), bytes, &format!("gave a {}x{} image of a {:?} {:?}, expected an error", i.width, i.height, i.make, i.model)),
    }
}
fn edits(s: &str) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let b: Vec<char> = s.chars().collect();
    for i in 0..b.len() {
        let mut d = b.clone(); d.remove(i); v.push(d.into_iter().collect());
        for x in ['x', 'X', '1', '-'] { if b[i] != x { let mut d = b.clone(); d[i] = x; v.push(d.into_iter().collect()); } }
        let c = b[i];
        let sw = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        if sw != c { let mut d = b.clone(); d[i] = sw; v.push(d.into_iter().collect()); }
        let mut d = b.clone(); d.insert(i, ' '); v.push(d.into_iter().collect());
    }
    for t in ["I", " II", "_", "."] { v.push(format!("{}{}", s, t)); }
    v.push(s.to_lowercase()); v.push(s.to_uppercase()); v.push(String::new());
    v.retain(|x| x.trim() != s.trim()); v.sort(); v.dedup(); v
}
fn in_db(make: &str, model: &str) -> bool { Db::load().all.iter().any(|c| c.make == make.trim() && c.model == model.trim()) }
fn names_of(t: &Tiff) -> Option<(String, String)> { let g = |tag: u16| t.ifds[0].e.iter().find(|e| e.0 == tag).and_then(|e| if let V::A(ref s) = e.1 { Some(s.clone()) } else { None }); Some((g(0x10f)?, g(0x110)?)) }
fn light() -> Vec<&'static Sample> { all_samples().iter().filter(|s| !s.heavy).collect() }
fn is_dng(s: &Sample) -> bool { s.name.starts_with("DNG") }
fn replace_all(b: &[u8], from: &[u8], to: &[u8]) -> (Vec<u8>, usize) { let mut o = b.to_vec(); let mut n = 0; let mut i = 0; while i + from.len() <= o.len() { if &o[i..i + from.len()] == from { o[i..i + from.len()].copy_from_slice(to); n += 1; i += from.len(); } else { i += 1; } } (o, n) }

/// walks all directories
fn walk(i: &mut Ifd, f: &mut dyn FnMut(&mut Ifd)) { f(i); for e in i.e.iter_mut() { match e.1 { V::Ifds(ref mut v) => for x in v { walk(x, f); }, V::Maker(ref mut m) => walk(&mut m.ifd, f), _ => {} } } }
fn set_all(d: &Doc, tag: u16, v: V) -> Option<Doc> {
    let mut d = d.clone();
    let mut n = 0;
    match d { Doc::T(ref mut t, _) => for i in t.ifds.iter_mut() { walk(i, &mut |i| for e in i.e.iter_mut() { if e.0 == tag { e.1 = v.clone(); n += 1; } }) },
        Doc::Raf(ref mut r) => { let mut ifds: Vec<&mut Ifd> = r.t1.ifds.iter_mut().collect(); if let Some((ref mut t, _)) = r.t2 { ifds.extend(t.ifds.iter_mut()); } for i in ifds { walk(i, &mut |i| for e in i.e.iter_mut() { if e.0 == tag { e.1 = v.clone(); n += 1; } }); } }
        _ => return None }
    if n > 0 { Some(d) } else { None }
}
const MAKES: &[&str] = &["SONY", "Mamiya-OP Co.,Ltd.", "OLYMPUS IMAGING CORP.", "OLYMPUS CORPORATION", "OLYMPUS OPTICAL CO.,LTD", "SAMSUNG", "SEIKO EPSON CORP.", "EASTMAN KODAK COMPANY", "KODAK", "Kodak", "Panasonic", "LEICA", "FUJIFILM", "PENTAX Corporation", "RICOH IMAGING COMPANY, LTD.", "PENTAX", "Leaf", "Hasselblad", "NIKON CORPORATION", "NIKON", "Canon", "Phase One A/S", "ARRI", "Minolta Co., Ltd.", "KONICA MINOLTA", "Sony", "Nikon", "LEICA CAMERA AG", "Leica Camera AG", "SIGMA", "Apple", "HUAWEI", "DJI", "Google", "GoPro", "Ricoh", "CASIO COMPUTER CO.,LTD.", "Xiaomi", "Imacon", "unknown"];

fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();
    v.push(job("every sample file is read by its own decoder", |ctx: &mut Ctx| for s in all_samples() { accept(ctx, &s.doc.bytes(), &s.exp, &|| s.name.clone()); }));
    // the DNG tag goes before every maker, model and software that another decoder would answer to
    v.push(job("DNGs of every camera of the database", |ctx: &mut Ctx| {
        let db = Db::load();
        let mut names: Vec<(String, String)> = db.all.iter().map(|c| (c.make.clone(), c.model.clone())).collect();
        let mut makes: Vec<String> = names.iter().map(|n| n.0.clone()).collect(); makes.sort(); makes.dedup();
        makes.extend(["OLYMPUS OPTICAL CO.,LTD", "OLYMPUS CORPORATION", "RICOH IMAGING COMPANY, LTD.", "Leaf", "KODAK", "Kodak", "LEICA"].iter().map(|s| s.to_string()));
        for m in makes { for md in ["TestModel", "DCS560C", "EOS D2000C"] { names.push((m.clone(), md.to_string())); } }
        names.push(("".into(), "".into()));
        names.sort(); names.dedup();
        // (two data files may describe one name)
        names.retain(|n| db.by.get(&(n.0.clone(), n.1.clone(), String::new())).map_or(true, |v| v.len() == 1));
        let (w, h) = (4usize, 2usize);
        for (n, (mk, md)) in names.iter().enumerate() { for soft in [None, Some("Camera Library"), Some("Adobe DNG Converter")] {
            let s = px(w, h, 16, n);
            let mut d = dng(w, h, 1, 16, w16(n % 2 == 1, &s), n % 2 == 1);
            { let i = &mut d.tiff().ifds[0]; i.set(0x10f, V::A(mk.clone())); i.set(0x110, V::A(md.clone())); if let Some(x) = soft { i.put(0x131, V::A(x.into())); } }
            let mut e = dng_exp(w, h, 1, s);
            e.make = mk.clone(); e.model = md.clone();
            match db.get(mk, md, "") { Some(c) => { e.clean_make = c.clean_make.clone(); e.clean_model = c.clean_model.clone(); } None => { e.clean_make = mk.clone(); e.clean_model = md.clone(); } }
            accept(ctx, &d.bytes(), &e, &|| format!("DNG of {:?} {:?} written by {:?}", mk, md, soft));
        } }
    }));
    for k in 0..light().len() {
        let name = light()[k].name.clone();
        v.push(job(format!("other makers and models in {}", name), move |ctx: &mut Ctx| {
            let s = &light()[k];
            if is_dng(s) { return; }
            let b = s.doc.bytes();
            // maker and model of a TIFF container
            let mut tn = None;
            match s.doc { Doc::T(ref t, _) => tn = names_of(t), Doc::Raf(ref r) => tn = names_of(&r.t1), _ => {} }
            if let Some((mk, md)) = tn {
                let mut makes: Vec<String> = edits(&mk); makes.extend(MAKES.iter().map(|x| x.to_string()));
                for m in makes { if m.trim() == mk.trim() || in_db(&m, &md) { continue; } let d = set_all(&s.doc, 0x10f, V::A(m.clone())).unwrap(); reject(ctx, &d.bytes(), &|| format!("{} with the maker {:?} instead of {:?}", s.name, m, mk)); }
                for m in edits(&md) { if in_db(&mk, &m) { continue; } let d = set_all(&s.doc, 0x110, V::A(m.clone())).unwrap(); reject(ctx, &d.bytes(), &|| format!("{} with the model {:?} instead of {:?}", s.name, m, md)); }
                // blanks and NULs around the names do not matter
                for (x, y) in [(format!("{} ", mk), format!("{}  ", md)), (format!("{}\0", mk), format!("{}\0\0\0", md)), (format!("{}\0junk", mk), format!("{}\0more junk", md)), (format!("{} \0 ", mk), md.clone())] {
                    if s.name.starts_with("IIQ") || s.name.starts_with("RW2") { continue; }
                    let d = set_all(&set_all(&s.doc, 0x10f, V::A(x.clone())).unwrap(), 0x110, V::A(y.clone())).unwrap();
                    accept(ctx, &d.bytes(), &s.exp, &|| format!("{} with the names {:?} {:?}", s.name, x, y));
                }
            } else {
                // the same-length edits of the model name stored in the file
                let md = s.exp.model.clone();
                if md.is_empty() { return; }
                for i in 0..md.len() { for x in [b'x', b'X', b'1', b'-', b' '] {
                    let mut t = md.clone().into_bytes(); t[i] = x;
                    let t2 = String::from_utf8(t.clone()).unwrap();
                    if t2.trim() == md.trim() || in_db(&s.exp.make, &t2) { continue; }
                    let (y, n) = replace_all(&b, md.as_bytes(), &t);
                    if n > 0 { reject(ctx, &y, &|| format!("{} with the model {:?} instead of {:?}", s.name, t2, md)); }
                } }
            }
        }));
        v.push(job(format!("signature of {}", name), move |ctx: &mut Ctx| {
            let s = &light()[k];
            let b = s.doc.bytes();
            // bytes that identify the container
            let sig: Vec<usize> = if s.name.starts_with("CRW") { (6..14).collect() } else if s.name.starts_with("MRW") || s.name.starts_with("ARI") { (0..4).collect() } else if matches!(s.doc, Doc::Raf(_)) { (0..8).collect() } else if matches!(s.doc, Doc::T(..)) || s.name.starts_with("IIQ") { vec![0, 1] } else { vec![] };
            for &p in &sig { for x in 0..=255u8 { if b[p] == x { continue; } let mut y = b.clone(); y[p] = x; reject(ctx, &y, &|| format!("{} with byte {} of its signature changed to {:#x}", s.name, p, x)); } }
            for other in [&b"FOVb"[..], b"\0MRW", b"\0\0\0\0", b"RIFF", b"\xff\xd8\xff\xe1", b"\x89PNG", b"8BPS", b"%PDF"] { let mut y = b.clone(); y[..4].copy_from_slice(other); if s.name.starts_with("CRW") { for p in 6..14 { y[p] = 0; } } reject(ctx, &y, &|| format!("{} starting with {:?}", s.name, other)); }
        }));
        v.push(job(format!("DNG tag in and around {}", name), move |ctx: &mut Ctx| {
            let s = &light()[k];
            if is_dng(s) { return; }
            let t0 = match s.doc { Doc::T(ref t, ref l) => (t.clone(), l.clone()), _ => return };
            let (w, h) = (4usize, 2usize); let px4 = px(w, h, 16, 9);
            let big = t0.1.big;
            let raw = |t: &mut Tiff| -> Ifd { let bl = t.blob(w16(big, &px4)); strip(Ifd::new().l(0xfe, 0), w, h, 1, 16, bl, 16).s(0x106, 32803).s(0x115, 1).t(0x828e, V::B(vec![0, 1, 1, 2])).t(0xc61d, V::L(vec![4000])) };
            // a DNG directory without the version tag changes nothing
            if !s.name.starts_with("RW2") && !s.name.starts_with("MOS") {
                let mut t = t0.0.clone(); let r = raw(&mut t); t.ifds.push(r);
                let mut l = t0.1.clone(); l.blobs_first = s.name.starts_with("NEF") && false;
                accept(ctx, &t.build(&l), &s.exp, &|| format!("{} with a DNG directory behind it but no DNG version", s.name));
            }
            // with it, the DNG image is the one that counts
            if let Some((mk, md)) = names_of(&t0.0) { for place in 0..3 { for ver in [[1u8, 4, 0, 0], [1, 0, 0, 0], [0, 0, 0, 0], [2, 0, 0, 0]] {
                let mut t = t0.0.clone(); let mut r = raw(&mut t);
                let vt = (0xc612u16, V::B(ver.to_vec()));
                let orient = t.ifds[0].e.iter().find(|e| e.0 == 0x112).map(|e| if let V::S(ref x) = e.1 { x[0] } else { 0 }).unwrap_or(0);
                match place { 0 => r.e.insert(0, vt), 1 => { r.put(vt.0, vt.1) } _ => { let n = t.ifds.len(); t.ifds[n - 1].put(vt.0, vt.1) } }
                r.put(0x10f, V::A(mk.clone())); r.put(0x110, V::A(md.clone())); if orient > 0 { r.put(0x112, V::S(vec![orient])); }
                r.put(0xc628, V::R(vec![(1, 1), (1, 2), (1, 4)])); r.put(0xc622, V::SR(vec![(3, 10); 9]));
                t.ifds.insert(0, r);
                let mut e = dng_exp(w, h, 1, px4.clone());
                e.make = mk.clone(); e.model = md.clone(); e.orient = orient; e.wb = [1.0, 2.0, 4.0, NAN]; e.matrix = [[0.3; 3], [0.3; 3], [0.3; 3], [0.0; 3]];
                match Db::load().get(&mk, &md, "") { Some(c) => { e.clean_make = c.clean_make.clone(); e.clean_model = c.clean_model.clone(); } None => { e.clean_make = mk.clone(); e.clean_model = md.clone(); } }
                accept(ctx, &t.build(&t0.1), &e, &|| format!("{} behind a DNG directory, version tag {:?} in place {}", s.name, ver, place));
            } } }
        }));
        v.push(job(format!("compressions and depths of {}", name), move |ctx: &mut Ctx| {
            let s = &light()[k];
            let n = &s.name[..];
            let ok: Option<&[u32]> = if n.starts_with("ARW") { Some(&[1, 32767]) } else if n.starts_with("PEF") { Some(&[1, 32773, 65535]) } else if n.starts_with("SRW") { Some(&[32769, 32770, 32772, 32773]) } else if n.starts_with("MOS") { Some(&[1, 7, 99]) } else if n.starts_with("DNG") { Some(&[1, 7]) } else if n == "NEF compressed" { Some(&[1, 34713]) } else { None };
            if let Some(ok) = ok {
                let step = if thorough() { 1 } else { 7 };
                let vals: Vec<u32> = (0..40000u32).step_by(step).chain(0..=120).chain(32700..32800).chain(34600..34900).chain(65400..65536).chain(ok.iter().flat_map(|&x| [x ^ 1, x ^ 0x8000, x + 0x10000, x.swap_bytes(), x << 8, x << 16])).collect();
                for c in vals { if ok.contains(&c) { continue; } if let Some(d) = set_all(&s.doc, 0x103, V::L(vec![c])) { reject(ctx, &d.bytes(), &|| format!("{} with compression {}", s.name, c)); } }
            }
            let okb: Option<&[u32]> = if n.starts_with("SRW NX1") && !n.starts_with("SRW NX10") { Some(&[12, 14]) } else if n == "RAF" { Some(&[12, 14, 16]) } else if n == "DNG 12-bit" || n == "DNG linear" || n.starts_with("DNG 4 black") { Some(&[8, 10, 12, 16]) } else { None };
            if let Some(ok) = okb { for c in (0..q(3000u32, 65536)).chain([65535, 0x10000 + ok[0], ok[0] << 8, ok[0] << 16]) { if ok.contains(&c) { continue; } for tag in [0x102u16, 0xf003] { if let Some(d) = set_all(&s.doc, tag, V::L(vec![c])) { reject(ctx, &d.bytes(), &|| format!("{} with {} bits per sample", s.name, c)); } } } }
        }));
    }
    // modes: Nikon by depth, Panasonic by aspect ratio
    v.push(job("Nikon depths that are not in the database", |ctx: &mut Ctx| {
        let db = Db::load();
        let mut seen = Vec::new();
        for c in db.all.iter().filter(|c| c.make == "NIKON CORPORATION" && (c.mode == "12bit" || c.mode == "14bit")) {
            if seen.contains(&c.model) { continue; } seen.push(c.model.clone());
            if let Some((d, e)) = plain(c, Opt { big: true, mbig: true, orient: 1 }) {
                if db.by[&(c.make.clone(), c.model.clone(), c.mode.clone())].len() == 1 { accept(ctx, &d.bytes(), &e, &|| format!("{} {}", c.model, c.mode)); }
                for b in (0..40u32).chain([112, 114, 256 + 12, 65536 + 12]) { if db.get(&c.make, &c.model, &format!("{}bit", b)).is_some() { continue; } if let Some(d) = set_all(&d, 0x102, V::L(vec![b])) { reject(ctx, &d.bytes(), &|| format!("{} with {} bits", c.model, b)); } }
            }
        }
    }));
    v.push(job("Panasonic and Leica aspect ratios", |ctx: &mut Ctx| {
        let db = Db::load();
        let mut seen = Vec::new();
        for c in db.all.iter().filter(|c| c.make == "Panasonic" || c.make == "LEICA") {
            if seen.contains(&c.model) { continue; } seen.push(c.model.clone());
            let a = db.all.iter().filter(|x| x.make == c.make && x.model == c.model).fold((0, 0), |a, x| (a.0.max(x.areav.0 + x.areav.1), a.1.max(x.areah.0 + x.areah.1)));
            let h0 = (a.1.max(a.0 * 2 / 3) + 9) / 20 * 20 + 20;
            for r in [100usize, 120, 124, 125, 126, 140, 144, 145, 150, 160, 164, 165, 170, 200] {
                let (w, h) = (h0 * r / 100 / 2 * 2, h0);
                let m = pana_mode(w, h);
                let s = px(w, h, 12, 1);
                let d = rw2(&c.make, &c.model, w, h, false, w16(false, &s.iter().map(|x| x << 4).collect::<Vec<_>>()), PanaWb::Rb(500, 400), 1, false);
                match db.by.get(&(c.make.clone(), c.model.clone(), m.to_string())) {
                    None => reject(ctx, &d.bytes(), &|| format!("{} {} at {}x{} ({})", c.make, c.model, w, h, m)),
                    Some(cs) if cs.len() == 1 => { let mut e = Exp::cam(&cs[0], w, h, s, pana_wb(&PanaWb::Rb(500, 400))); e.orient = 1; accept(ctx, &d.bytes(), &e, &|| format!("{} {} at {}x{} ({})", c.make, c.model, w, h, m)); }
                    _ => {}
                }
            }
        }
    }));
    for part in 0..8usize { v.push(job(format!("every maker of the decoder table, part {}", part), move |ctx: &mut Ctx| {
        let db = Db::load();
        for (k, c) in db.all.iter().enumerate() { if k % 8 != part || db.by[&(c.make.clone(), c.model.clone(), c.mode.clone())].len() > 1 || c.make.trim() != c.make || c.model.trim() != c.model { continue; }
            if let Some((d, e)) = plain(c, Opt { big: false, mbig: false, orient: 2 }) { accept(ctx, &d.bytes(), &e, &|| format!("file of {} {}", c.make, c.model)); } }
    })); }
    v.push(job("the Kodak camera that writes Canon files", |ctx: &mut Ctx| {
        let (mk, md) = ("Kodak", "DCS560C");
        if let Some(c) = Db::load().get(mk, md, "") {
            let (w, h) = size(c);
            let raw = px(w, h, 12, 12); let t: Vec<u16> = (0..4096).map(|i| i * 4).collect();
            let data = if c.hint("linearization") { let cv = Curve { t: t.clone() }; let mut rnd = raw[0] as u32; raw.iter().map(|&x| cv.get(x as usize, &mut rnd)).collect() } else { raw.clone() };
            let d = cr2(mk, md, Cr2Kind::Cfa, ljpeg(w, h, 2, 12, &raw), None, None, &Cr2Wb::None, Some(&t), 0, true);
            accept(ctx, &d.bytes(), &Exp::cam(c, w, h, data, [NAN; 4]), &|| "Kodak DCS560C".into());
        }
    }));
    // Leaf backs without maker are known by their software
    v.push(job("files without a maker", |ctx: &mut Ctx| {
        for s in light().iter().filter(|s| s.name.starts_with("MOS")) {
            for m in edits("Camera Library").into_iter().chain(["Adobe".to_string(), "Capture One".into(), "camera library".into()]) { if let Some(d) = set_all(&s.doc, 0x131, V::A(m.clone())) { reject(ctx, &d.bytes(), &|| format!("{} with the software {:?}", s.name, m)); } }
            // a maker outranks the software
            for mk in MAKES.iter() { let mut d = s.doc.clone(); d.tiff().ifds[0].put(0x10f, V::A(mk.to_string())); d.tiff().ifds[0].put(0x110, V::A("no such model".into())); reject(ctx, &d.bytes(), &|| format!("{} with the maker {:?}", s.name, mk)); }
        }
        for s in light().iter().filter(|s| !is_dng(s)) { if let Doc::T(ref t, _) = s.doc { if names_of(t).is_none() { continue; } let mut d = s.doc.clone(); d.tiff().ifds[0].del(0x10f); reject(ctx, &d.bytes(), &|| format!("{} without a maker", s.name)); let mut d = s.doc.clone(); d.tiff().ifds[0].del(0x110); reject(ctx, &d.bytes(), &|| format!("{} without a model", s.name)); } }
    }));
    // headerless dumps
    let mut sizes: Vec<usize> = Db::load().all.iter().filter(|c| c.filesize > 0).map(|c| c.filesize).collect();
    sizes.sort(); sizes.dedup();
    for sz in sizes { v.push(job(format!("headerless dump of {} bytes", sz), move |ctx: &mut Ctx| {
        let db = Db::load();
        let cs: Vec<&Cam> = db.all.iter().filter(|c| c.filesize == sz).collect();
        for fill in 0..2usize {
            let b: Vec<u8> = (0..sz).map(|i| if fill == 0 { 0 } else { (mix(i / 4, 3, 3) >> (i % 4 * 8)) as u8 | 0x80 }).collect();
            ctx.begin(|| (format!("{} bytes without a header", sz), vec![])); ctx.states += 1; ctx.transitions += 1;
            match ctx.decode(&b) {
                Err(m) => ctx.fail("naked", &format!("{} bytes without a header", sz), &[], &format!("decoding failed: {}", m)),
                Ok(i) => if !cs.iter().any(|c| i.make == c.make && i.model == c.model && i.clean_model == c.clean_model && (i.width, i.height) == (c.raw_width, c.raw_height) && i.whitelevels == c.white && i.data.len() == c.raw_width * c.raw_height) {
                    ctx.fail("naked", &format!("{} bytes without a header", sz), &[], &format!("read as {} {} {}x{}, the database says {} {} {}x{}", i.make, i.model, i.width, i.height, cs[0].make, cs[0].model, cs[0].raw_width, cs[0].raw_height)); }
            }
            for dlt in [-65536i64, -1024, -512, -16, -8, -4, -3, -2, -1, 1, 2, 3, 4, 8, 16, 17, 512, 1024, 65536] {
                let n = (sz as i64 + dlt) as usize;
                if db.all.iter().any(|c| c.filesize == n) { continue; }
                let mut y = b.clone(); y.resize(n, 0);
                reject(ctx, &y, &|| format!("{} bytes without a header", n));
            }
        }
        // a recognised container of exactly that size is still read as what it is
        for s in light() {
            if s.name.starts_with("RW2") || s.name.starts_with("IIQ") || !(thorough() || mix(sz, s.name.len(), 1) % 6 == 0) { continue; }
            let mut y = s.doc.bytes(); if y.len() > sz { continue; }
            if s.name.starts_with("CRW") { continue; } // its directory is at the end of the file
            y.resize(sz, 0);
            accept(ctx, &y, &s.exp, &|| format!("{} in a file of {} bytes", s.name, sz));
        }
        // a known container with an unknown maker is not a dump, a bare TIFF is
        let mut d = dng(4, 2, 1, 16, vec![0; 16], false); d.tiff().ifds[0].del(0xc612);
        let mut y = d.bytes(); y.resize(sz, 0);
        reject(ctx, &y, &|| format!("TIFF of an unknown maker in a file of {} bytes", sz));
        d.tiff().ifds[0].del(0x10f);
        let mut y = d.bytes(); y.resize(sz, 0);
        ctx.begin(|| (format!("TIFF without a maker in a file of {} bytes", sz), vec![])); ctx.states += 1;
        match ctx.decode(&y) { Err(m) => ctx.fail("naked", &format!("TIFF without a maker in a file of {} bytes", sz), &[], &m), Ok(i) => if !cs.iter().any(|c| c.model == i.model && c.make == i.make) { ctx.fail("naked", &format!("TIFF without a maker in a file of {} bytes", sz), &[], "wrong camera"); } }
    })); }
    v.push(job("files of no known format", |ctx: &mut Ctx| {
        for n in 0..q(600usize, 5000) { for fill in 0..6u32 {
            let b: Vec<u8> = (0..n).map(|i| match fill { 0 => 0, 1 => 0xff, 2 => b' ', 3 => mix(i, n, 1) as u8, 4 => i as u8, _ => b"RAWDATA"[i % 7] }).collect();
            if b.len() > 1 && (&b[..2] == b"II" || &b[..2] == b"MM") { continue; }
            reject(ctx, &b, &|| format!("{} bytes of kind {}", n, fill));
        } }
        // every two-byte start
        for x in 0..65536u32 { let mut b = vec![0u8; 64]; b[0] = (x >> 8) as u8; b[1] = x as u8; reject(ctx, &b, &|| format!("64 bytes starting with {:04x}", x)); }
        // every signature followed by nothing useful
        for sig in [&b"II*\0"[..], b"MM\0*", b"IIRO", b"IIRS", b"IIU\0", b"MMOR", b"\0MRM", b"ARRI", b"FOVb", b"FUJIFILMCCD-RAW ", b"II\x1a\0\0\0HEAPCCDR"] { for n in 0..400usize { for fill in [0u8, 1, 0x7f, 0xff] {
            let mut b = sig.to_vec(); b.extend(vec![fill; n]); reject(ctx, &b, &|| format!("{:?} and {} bytes {:#x}", sig, n, fill));
        } } }
    }));
    v
}
fn main() {
    run_main(Spec::new("C18", "for every small file of every format: every single-character edit of maker and model and 40 other makers, every value of each signature byte, foreign signatures, a DNG directory with the version tag (4 versions, 3 places) and without it, every unsupported compression (thorough: all of 0..40000, quick: every 7th and the neighbourhoods of the supported ones) and bit depth; all depths of every Nikon and 14 aspect ratios around each boundary of every Panasonic and Leica; a plain file of every camera; all headerless sizes of the database and their neighbours, with and without recognised containers of the same size; all two-byte starts, all signatures with empty contents",
        &["a recognised signature with a supported maker, model and compression is covered by the format properties"]), jobs)
}
