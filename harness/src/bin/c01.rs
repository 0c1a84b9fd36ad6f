//! C01: decoding any file returns; it never kills the process, exhausts memory or runs on.
use harness::{chk::mix, fmt::*, run::*, samples::*, tiffb::*};

fn one(ctx: &mut Ctx, bytes: &[u8], what: &dyn Fn() -> String) {
    ctx.begin(|| (what(), bytes.to_vec()));
    ctx.states += 1; ctx.transitions += 1;
    match ctx.decode(bytes) {
        Err(e) => { let k: String = e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect(); ctx.outcome(hash(&k)); }
        Ok(i) => ctx.outcome(hash(&(i.width, i.height, i.cpp))),
    }
}
type Fd = (usize, usize, bool, String);
fn get(b: &[u8], x: &Fd) -> u32 { (0..x.1).fold(0u32, |a, i| a << 8 | b[x.0 + if x.2 { i } else { x.1 - 1 - i }] as u32) }
fn set(b: &mut [u8], x: &Fd, val: u32) { for i in 0..x.1 { b[x.0 + if x.2 { x.1 - 1 - i } else { i }] = (val >> (8 * i)) as u8; } }
/// hostile values of a field of `n` bytes of a file of `len` bytes holding `v`
fn menu(n: usize, v: u32, len: usize, pos: usize, small: bool) -> Vec<u32> {
    let l = len as u32;
    let mut m = match (n, small) {
        (1, false) => vec![0, 1, 2, 3, 4, 7, 0x0f, 0x10, 0x11, 0x12, 0x20, 0x21, 0x22, 0x3f, 0x40, 0x7f, 0x80, 0xfe, 0xff],
        (1, true) => vec![0, 1, 0x22, 0x80, 0xff],
        (2, false) => vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 14, 16, 17, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, v.wrapping_add(1), v.wrapping_sub(1), v.wrapping_mul(2), l, l.wrapping_sub(1)],
        (2, true) => vec![0, 1, 5, 0x7fff, 0x8000, 0xffff],
        (_, false) => vec![0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 64, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x1ffff, 0x40000000, 0x7fffffff, 0x80000000, 0x80000001, 0xc0000000, 0xfffffff0, 0xfffffff7, 0xfffffff8, 0xfffffffc, 0xfffffffe, 0xffffffff,
            v.wrapping_add(1), v.wrapping_sub(1), v.wrapping_add(2), v.wrapping_mul(2), v.wrapping_mul(65537), l, l.wrapping_sub(1), l.wrapping_sub(2), l.wrapping_sub(4), l.wrapping_sub(12), l.wrapping_add(1), pos as u32, (pos as u32).wrapping_sub(8), (pos as u32).wrapping_sub(10)],
        (_, true) => vec![0, 1, 8, 0xffff, 0x40000000, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff, l.wrapping_sub(1), l],
    };
    for x in m.iter_mut() { if n < 4 { *x &= (1u32 << (8 * n)) - 1; } }
    m.sort(); m.dedup(); m.retain(|&x| x != v);
    m
}
/// the structural fields of a sample: those the builder knows of, and for other containers every word of the header
fn fields(s: &Sample) -> (Vec<u8>, Vec<Fd>) {
    let (b, f) = s.doc.fields();
    let mut v: Vec<Fd> = f.iter().map(|f| (f.pos, f.len.min(4), f.big, f.what.clone())).collect();
    if let Doc::B(_) = s.doc {
        let ciff = b.len() > 14 && &b[6..14] == b"HEAPCCDR";
        let big = &b[..4] == b"\0MRM";
        let (lo, hi) = if ciff { (b.len().saturating_sub(400), b.len()) } else { (0, b.len().min(200)) };
        for p in (lo..hi.saturating_sub(4)).step_by(2) { v.push((p, 4, big, format!("long at {}", p))); v.push((p, 2, big, format!("short at {}", p))); }
        if ciff { for p in [0usize, 2, 4] { v.push((p, 4.min(2 + p), false, format!("header at {}", p))); } }
    }
    if s.name.starts_with("IIQ") { for p in (0..b.len() - 4).step_by(4) { v.push((p, 4, false, format!("long at {}", p))); } }
    // lossless JPEG headers, byte by byte
    if let Some(i) = (0..b.len().saturating_sub(4)).find(|&i| b[i..i + 3] == [0xff, 0xd8, 0xff] && b[i + 3] != 0xe1) { for p in i..(i + 140).min(b.len()) { v.push((p, 1, false, format!("frame byte {}", p - i))); } for p in i..(i + 60).min(b.len() - 2) { v.push((p, 2, true, format!("frame word {}", p - i))); } }
    (b, v)
}
/// a value that would declare an image of between a few and five hundred million samples takes seconds; those have their own job
fn slow(s: &Sample, x: u32) -> bool { let n = s.exp.w.max(s.exp.h) as u64 * x as u64; x > 4000 && n > 3_000_000 && n < 500_000_001 && !thorough() }

fn tree(dirs: &[(Vec<(u16, usize)>, Option<usize>)], big: bool, make: &str, pad: usize) -> Vec<u8> {
    // fixed-size directories, so that any may point at any
    let p16 = |o: &mut Vec<u8>, v: u16| o.extend(if big { v.to_be_bytes() } else { v.to_le_bytes() });
    let p32 = |o: &mut Vec<u8>, v: u32| o.extend(if big { v.to_be_bytes() } else { v.to_le_bytes() });
    let size = |d: &(Vec<(u16, usize)>, Option<usize>), i: usize| 2 + 12 * (d.0.len() + (i == 0) as usize) + 4;
    let mut pos = vec![0usize; dirs.len()];
    let mut at = 8 + 32;
    for (i, d) in dirs.iter().enumerate() { pos[i] = at; at += size(d, i) + pad; }
    let mut o: Vec<u8> = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    p32(&mut o, pos[0] as u32);
    o.extend(make.as_bytes()); o.resize(40, 0);
    for (i, d) in dirs.iter().enumerate() {
        p16(&mut o, (d.0.len() + (i == 0) as usize) as u16);
        if i == 0 { p16(&mut o, 0x10f); p16(&mut o, 2); p32(&mut o, 24); p32(&mut o, 8); }
        for &(t, to) in &d.0 {
            p16(&mut o, t);
            if t == 0x927c { p16(&mut o, 7); p32(&mut o, 40); } else { p16(&mut o, 4); p32(&mut o, 1); }
            p32(&mut o, if to < dirs.len() { pos[to] as u32 } else { 0 });
        }
        p32(&mut o, d.1.map(|n| pos[n] as u32).unwrap_or(0));
        o.resize(o.len() + pad, 0);
    }
    o
}

fn s_area(k: usize) -> usize { all_samples()[k].exp.data.len() }
fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();
    let ss: Vec<(usize, String, usize)> = all_samples().iter().enumerate().map(|(k, s)| (k, s.name.clone(), s.doc.bytes().len())).collect();
    for (k, name, len) in ss.iter().cloned() {
        let heavy = len > 12_000 || s_area(k) > 20_000;
        let name0 = name.clone();
        v.push(job(format!("truncations of {}", name), move |ctx: &mut Ctx| {
            let b = all_samples()[k].doc.bytes();
            let step = if len > 100_000 { q(len / 40, len / 400) } else if heavy { q(97, 7) } else if len > 3000 { q(3, 1) } else { 1 };
            for n in (0..=len).filter(|n| n % step == 0 || *n < 1500.min(q(600, 1500)) || len - n < 40) { one(ctx, &b[..n], &|| format!("{} cut to {} bytes", name0, n)); }
            // a piece missing from the middle
            let st = if heavy { len / 25 } else { (len / q(60, 300)).max(1) };
            for a in (0..len).step_by(st.max(1)) { for c in [1usize, 2, 3, 4, 12, 13, 64] { if a + c > len { continue; } let mut x = b[..a].to_vec(); x.extend(&b[a + c..]); one(ctx, &x, &|| format!("{} without bytes {}..{}", name0, a, a + c)); let mut x = b[..a].to_vec(); x.extend(vec![0xa7u8; c]); x.extend(&b[a..]); one(ctx, &x, &|| format!("{} with {} bytes inserted at {}", name0, c, a)); } }
            ctx.sample(format!("{} ({} bytes) cut at every length", name0, len));
        }));
        let (k2, name2) = (k, name.clone());
        // the largest files cost most and differ from smaller ones of their format only in metadata
        let parts = if !thorough() && (len > 5_000_000 || s_area(k) > 30_000) { 0 } else if heavy { 1 } else { q(1, 4) };
        for part in 0..parts { let name = name2.clone(); v.push(job(format!("bytes of {} part {}", name, part), move |ctx: &mut Ctx| {
            let s = &all_samples()[k2];
            let b = s.doc.bytes();
            let idx: Vec<usize> = (0..len).filter(|&p| if len > 100_000 { p < 64 || p % (len / 60) == 0 || len - p < 40 } else if heavy { p < q(80, 500) || p % q(409, 17) == 0 || len - p < q(160, 300) } else { len <= q(2500, 5000) || p < 1500 || p % q(7, 2) == 0 || len - p < 300 }).filter(|p| p % parts == part).collect();
            for &p in &idx {
                let full = thorough() && !heavy;
                let mut x = b.clone();
                let vals: Vec<u8> = if full { (0..=255).collect() } else { vec![0, 1, 0x7f, 0x80, 0xff, b[p] ^ 1, b[p] ^ 0x80, b[p] ^ 0x10, b[p].wrapping_add(1)] };
                for c in vals { if c == b[p] { continue; } x[p] = c; one(ctx, &x, &|| format!("{} with byte {} set to {:#x}", name, p, c)); }
                x[p] = b[p];
                if len > 100_000 { continue; }
                // words from here on
                for (n, vs) in [(2usize, &[0u32, 1, 0x7fff, 0x8000, 0xffff][..]), (4, &[0, 1, 8, 0xffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff][..])] { if p + n > len { continue; } for big in [false, true] { for &val in vs {
                    if slow(s, val) { continue; }
                    let f = (p, n, big, String::new());
                    let old = get(&x, &f); if old == val { continue; }
                    set(&mut x, &f, val); one(ctx, &x, &|| format!("{} with the {}-byte word at {} set to {:#x} ({})", name, n, p, val, if big { "big endian" } else { "little endian" })); set(&mut x, &f, old);
                } } }
            }
            ctx.sample(format!("{}: {} positions x hostile bytes and words", name, idx.len()));
        })); }
        let name2 = name.clone();
        v.push(job(format!("fields of {}", name), move |ctx: &mut Ctx| {
            let s = &all_samples()[k];
            let (b, f) = fields(s);
            if len > 100_000 { return; }
            let n = f.len();
            let heavy = s.exp.data.len() > 20_000 && !thorough();
            for i in (0..n).filter(|i| !heavy || i % 3 == 0) {
                let mut m = menu(f[i].1, get(&b, &f[i]), len, f[i].0, heavy);
                // pointers to any other structure of the file
                if f[i].1 == 4 && f[i].3.starts_with("value of") || f[i].3 == "next ifd" { for g in f.iter().filter(|g| g.3 == "ifd count") { m.push(g.0 as u32); } }
                for val in m { if slow(s, val) { continue; } let mut x = b.clone(); set(&mut x, &f[i], val); one(ctx, &x, &|| format!("{} with {} = {:#x}", name2, f[i].3, val)); }
            }
            ctx.sample(format!("{}: {} header fields", name2, n));
        }));
        let name2 = name.clone();
        let pparts = if len > 100_000 { 0 } else { q(1usize, 4) };
        for part in 0..pparts { let name2 = name2.clone(); v.push(job(format!("field pairs of {} part {}", name, part), move |ctx: &mut Ctx| {
            let s = &all_samples()[k];
            let (b, mut f) = fields(s);
            // tag numbers and byte positions do not need pairs in the quick tier
            if !thorough() { f.retain(|f| !f.3.starts_with("tag ") && !f.3.starts_with("frame word")); }
            if heavy { f.truncate(q(20, 60)); }
            let n = f.len();
            let keep = q(if n > 120 { 23 } else if n > 60 { 7 } else { 3 }, 1);
            let mut c = 0usize;
            for i in (0..n).filter(|i| i % pparts == part) { for va in menu(f[i].1, get(&b, &f[i]), len, f[i].0, true) { if slow(s, va) { continue; } let mut x = b.clone(); set(&mut x, &f[i], va);
                for j in i + 1..n { if f[j].0 < f[i].0 + f[i].1 && f[i].0 < f[j].0 + f[j].1 { continue; } for vb in menu(f[j].1, get(&b, &f[j]), len, f[j].0, true) {
                    c += 1; if c % keep != 0 || slow(s, vb) || (va >= 0xffff && va < 0x8000_0000 && vb >= 0x7fff && vb < 0x8000_0000 && !thorough()) { continue; }
                    let g = &f[j]; let old = get(&x, g);
                    set(&mut x, g, vb); one(ctx, &x, &|| format!("{} with {} = {:#x} and {} = {:#x}", name2, f[i].3, va, g.3, vb)); set(&mut x, g, old);
                } }
            } }
            ctx.sample(format!("{}: {} header fields in pairs", name2, n));
        })); }
    }
    // every graph of three directories with two pointers and a successor each
    for (a, pair) in [(0x14au16, 0x8769u16), (0x14a, 0x927c), (0x8769, 0x927c), (0x2040, 0x14a), (0x8606, 0x14a), (0xfe00, 0x14a), (0xc634, 0x14a), (0xf000, 0x8769), (0x8290, 0xfe00)].iter().cloned().enumerate() {
        v.push(job(format!("directory graphs with {:x} and {:x}", pair.0, pair.1), move |ctx: &mut Ctx| {
            let makes = ["SONY", "OLYMPUS CORPORATION", "PENTAX", "NIKON CORPORATION", "Canon", "FUJIFILM", "Leaf", "Kodak", "EASTMAN KODAK COMPANY"];
            ctx.explore(0, |ch, ctx| {
                let k = q(2, 3);
                let d: Vec<(Vec<(u16, usize)>, Option<usize>)> = (0..k).map(|_| (vec![(pair.0, ch.choose(k + 1)), (pair.1, ch.choose(k + 1))], { let n = ch.choose(k + 1); if n < k { Some(n) } else { None } })).collect();
                let b = tree(&d, a % 2 == 1, makes[a], 0);
                one(ctx, &b, &|| format!("directory graph {:?}", d));
            });
            ctx.sample("every pointer graph: self loops, cycles, shared directories");
        }));
    }
    for tag in [0x14au16, 0x8769, 0x927c, 0x2040] { v.push(job(format!("directory graphs of {} with {:x}", q(3, 4), tag), move |ctx: &mut Ctx| {
        ctx.explore(0, |ch, ctx| {
            let k = q(3, 4);
            let d: Vec<(Vec<(u16, usize)>, Option<usize>)> = (0..k).map(|_| (vec![(tag, ch.choose(k + 1))], { let n = ch.choose(k + 1); if n < k { Some(n) } else { None } })).collect();
            let b = tree(&d, tag & 1 == 1, ["OLYMPUS CORPORATION", "PENTAX"][(tag == 0x927c) as usize], 0);
            one(ctx, &b, &|| format!("directory graph {:?}", d));
        });
    })); }
    v.push(job("bushy and deep directories", |ctx: &mut Ctx| {
        for big in [false, true] { for tag in [0x14au16, 0x8769, 0x927c, 0xc634, 0x8606, 0xfe00, 0x2040] { for make in ["SONY", "OLYMPUS", "Canon", "PENTAX Corporation"] {
            for n in [2usize, 10, 100, 1000, 3000] {
                // n pointers to itself; n directories pointing at each other; chains
                one(ctx, &tree(&[(vec![(tag, 0); n], Some(0))], big, make, 0), &|| format!("a directory with {} pointers {:x} to itself", n, tag));
                one(ctx, &tree(&[(vec![(tag, 1); n], None), (vec![(tag, 0); n], Some(0))], big, make, 0), &|| format!("two directories with {} pointers {:x} to each other", n, tag));
                one(ctx, &tree(&(0..3).map(|i| (vec![(tag, (i + 1) % 3); n], Some((i + 1) % 3))).collect::<Vec<_>>(), big, make, 0), &|| format!("three directories with {} pointers {:x} in a ring", n, tag));
                one(ctx, &tree(&(0..n).map(|i| (vec![(tag, i + 1)], None)).collect::<Vec<_>>(), big, make, 0), &|| format!("{} nested directories", n));
                one(ctx, &tree(&(0..n).map(|i| (vec![(tag, n + 1)], if i + 1 < n { Some(i + 1) } else { Some(0) })).collect::<Vec<_>>(), big, make, 0), &|| format!("{} directories in a row", n));
                one(ctx, &tree(&(0..n).map(|i| (vec![(tag, i + 1), (tag ^ 1, i + 1), (0x14a, i + 1)], Some((i + 1) % n))).collect::<Vec<_>>(), big, make, 0), &|| format!("{} directories doubly linked", n));
            }
            for n in [20_000usize, q(60_000, 200_000)] {
                one(ctx, &tree(&(0..n).map(|i| (vec![(tag, i + 1)], None)).collect::<Vec<_>>(), big, make, 0), &|| format!("{} nested directories", n));
                one(ctx, &tree(&(0..n).map(|i| (vec![(tag, n + 1)], if i + 1 < n { Some(i + 1) } else { None })).collect::<Vec<_>>(), big, make, 0), &|| format!("{} directories in a row", n));
            }
        } } }
    }));
    v.push(job("nested Canon heaps", |ctx: &mut Ctx| {
        // a heap whose entries are the heap itself, or each the next smaller one
        for n in [1usize, 2, 3, 10, 50, 500, 6000] { for dir in [0x2807u16, 0x300a] { for selfish in [false, true] {
            let mut body = vec![0u8; 0];
            body.extend((n as u16).to_le_bytes());
            let size = 2 + 10 * n + 4;
            for i in 0..n { body.extend(dir.to_le_bytes()); let (s, o) = if selfish { (size, 0) } else { (size - i.min(size - 1), 0) }; body.extend((s as u32).to_le_bytes()); body.extend((o as u32).to_le_bytes()); }
            body.extend(0u32.to_le_bytes());
            let mut f = b"II".to_vec(); f.extend(26u32.to_le_bytes()); f.extend(b"HEAPCCDR"); f.resize(26, 0); f.extend(&body);
            one(ctx, &f, &|| format!("heap with {} entries {:x} that are itself: {}", n, dir, selfish));
        } } }
        for depth in [5usize, 12, 100, 5000] {
            let mut b: Vec<u8> = vec![0, 0, 0, 0, 0, 0];
            for _ in 0..depth { let l = b.len() as u32; b.extend(1u16.to_le_bytes()); b.extend(0x300au16.to_le_bytes()); b.extend(l.to_le_bytes()); b.extend(0u32.to_le_bytes()); b.extend(l.to_le_bytes()); }
            let mut f = b"II".to_vec(); f.extend(26u32.to_le_bytes()); f.extend(b"HEAPCCDR"); f.resize(26, 0); f.extend(&b);
            one(ctx, &f, &|| format!("heap nested {} deep", depth));
        }
    }));
    // the private blocks of the DSLR-A100, which are walked after decoding its (large) image
    for part in 0..4usize { v.push(job(format!("DSLR-A100 private blocks part {}", part), move |ctx: &mut Ctx| {
        // every difference 0: 011 011 011 ...
        let n = 3881usize * 2608;
        let pay: Vec<u8> = (0..n * 3 / 8 + 16).map(|i| [0b01101101u8, 0b10110110, 0b11011011][i % 3]).collect();
        let base = a100(pay, [400, 256, 256, 300], 2, false).bytes();
        let at = (0..base.len() - 4).find(|&i| &base[i..i + 4] == b"\0PRD").expect("private area");
        let mut k = 0usize;
        // the length of each block, and the tag of the last (so that the walk goes on behind it)
        for blk in 0..3usize { let pos = at + blk * 32 + 4;
            let mut vals = vec![0u32, 1, 4, 24, 40, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, base.len() as u32];
            // lengths that lead back to where the walk was before, in 32-bit arithmetic
            for back in (0..=(8 + blk * 32 + 8) as u32).step_by(8) { vals.push(0u32.wrapping_sub(back)); }
            vals.sort(); vals.dedup();
            for val in vals { for hide in [false, true] {
                k += 1; if k % 4 != part { continue; }
                let mut x = base.clone();
                x[pos..pos + 4].copy_from_slice(&val.to_le_bytes());
                if hide { x[at + 64..at + 68].copy_from_slice(b"\0WBX"); }
                one(ctx, &x, &|| format!("A100 with the length of private block {} set to {:#x}{}", blk, val, if hide { " and no WBG block" } else { "" }));
            } }
        }
    })); }
    // all files of up to two bytes, and signatures followed by filler of every length
    v.push(job("tiny files", |ctx: &mut Ctx| {
        one(ctx, &[], &|| "empty file".into());
        for a in 0..=255u8 { one(ctx, &[a], &|| format!("{:02x}", a)); for b in (0..=255u8).step_by(q(5, 1)) { one(ctx, &[a, b], &|| format!("{:02x}{:02x}", a, b)); } }
        let sigs: Vec<Vec<u8>> = vec![vec![], b"II*\0".to_vec(), b"MM\0*".to_vec(), b"II".to_vec(), b"MM".to_vec(), b"\0MRM".to_vec(), b"ARRI".to_vec(), b"FOVb".to_vec(), b"FUJIFILMCCD-RAW ".to_vec(), b"IIRO\x08\0\0\0".to_vec(), b"IIU\0\x08\0\0\0".to_vec(), b"IIII".to_vec(), b"MMMM".to_vec(), b"II*\0\x08\0\0\0".to_vec(), b"MM\0*\0\0\0\x08".to_vec(), { let mut x = b"II\x1a\0\0\0HEAPCCDR".to_vec(); x.resize(26, 0); x }];
        for s in &sigs { for fill in [0u8, 1, 8, 0x10, 0x7f, 0x80, 0xff, b'I', b'M'] { for n in (0..200usize).chain([255, 256, 511, 512, 1000, 4095, 4096, 70_000, 250_000, 900_000]) { let mut x = s.clone(); x.extend(vec![fill; n]); one(ctx, &x, &|| format!("signature {:?} and {} bytes {:02x}", String::from_utf8_lossy(s), n, fill)); } }
            for n in [16usize, 64, 300, 5000, 250_000] { for seed in 0..q(40, 400) { let mut x = s.clone(); x.extend((0..n).map(|i| mix(i, seed, 5) as u8)); one(ctx, &x, &|| format!("signature {:?} and {} pseudo-random bytes, stream {}", String::from_utf8_lossy(s), n, seed)); } } }
    }));
    // the exact sizes of headerless dumps with other contents
    v.push(job("headerless sizes", |ctx: &mut Ctx| { for c in harness::camdb::Db::load().all.iter().filter(|c| c.filesize > 0) { for fill in [0u8, 0xff] { for d in [-1i64, 0, 1] { let n = (c.filesize as i64 + d) as usize; if !thorough() && n > 20_000_000 { continue; } one(ctx, &vec![fill; n], &|| format!("{} bytes {:02x}", n, fill)); } } } }));
    // hostile image sizes in every format
    for (k, name, len) in ss.iter().cloned() {
        if len > 100_000 || matches!(all_samples()[k].doc, Doc::B(_)) { continue; }
        v.push(job(format!("hostile sizes of {}", name), move |ctx: &mut Ctx| {
            let s = &all_samples()[k];
            let (b, f) = s.doc.fields();
            let at = |t: &str| f.iter().filter(|f| f.what == format!("value of {}", t)).map(|f| (f.pos, 4usize, f.big, String::new())).collect::<Vec<Fd>>();
            let sizes: &[u64] = &[0, 1, 2, 3, 16, 1000, 1001, 4096, 65535, 65536, 65537, 1 << 20, 1 << 24, (1 << 28) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 2, (1 << 32) - 1];
            let lim = q(2_500_000u64, 500_000_000) / if s.name == "MOS lossless JPEG" { 10 } else { 1 };
            for (tw, th) in [("0100", "0101"), ("0002", "0003"), ("f001", "f002"), ("fd00", "fd01")] { for (pw, ph) in at(tw).into_iter().zip(at(th)) { for &w in sizes { for &h in sizes {
                let n = w * h;
                if n > lim && n <= 500_000_000 * 2 { continue; }
                if thorough() && n > 50_000_000 && n <= 500_000_000 && (w + h) % 3 != 0 { continue; }
                for fill in [None, Some(0u8), Some(0xff), Some(0x5a)] {
                    let mut x = b.clone(); set(&mut x, &pw, w as u32); set(&mut x, &ph, h as u32);
                    if let Some(c) = fill { x.extend(vec![c; 3000]); }
                    one(ctx, &x, &|| format!("{} declared as {}x{} with filler {:?}", name, w, h, fill));
                }
            } } } }
            // and of the components, tiles and strips with them
            for t in ["0115", "0142", "0143", "0102", "0117", "c640"] { for p in at(t) { for &x1 in sizes { for (tw, _) in [("0100", 0), ("0101", 0)] { for pw in at(tw) { for &w in sizes { if w * x1.max(s.exp.h as u64) > lim && w * x1.min(s.exp.h as u64) < 1_000_000_000 { continue; } let mut x = b.clone(); set(&mut x, &pw, w as u32); set(&mut x, &p, x1 as u32); one(ctx, &x, &|| format!("{} with {} = {} and {} = {}", name, tw, w, t, x1)); } } } } } }
        }));
    }
    v
}
fn main() {
    let mut s = Spec::new("C01", "one small file per format and compression variant: every truncation, removals and insertions, every byte from a hostile menu (thorough: all values), every 16/32-bit word at every position in both byte orders from a menu, every header field from a larger menu, pairs of header fields, every pointer graph of up to 3 directories, bushy, cyclic, deep and long directory chains, tiny files, signatures with fillers, hostile image sizes; in overflow-checked and in release arithmetic, with 4 GB of address space and 60 s per file", &["larger corruptions (three or more independent fields) are not explored", "an image of up to 500 million samples is an accepted size"]);
    s.mem_gb = 4; s.hang_s = 60;
    run_main(s, jobs);
}
